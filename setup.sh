#!/bin/sh
# builds the fact extractor and reads /repo once, so that the checks start warm (each check also builds what is missing)
cd "$(dirname "$0")" || exit 1
exec python3 -m analysis.facts

#!/bin/bash
H="$(cd "$(dirname "$0")" && pwd)"
exec bash "$H/kit.sh" "$H"

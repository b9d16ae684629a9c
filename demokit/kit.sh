#!/bin/bash
# kit.sh HERE : builds a scratch copy of the library (external crates replaced by the stand-ins in HERE/ws) with the
# demonstration tests HERE/demo_*.rs added to the module named on their first line, and runs just these tests.
HERE="$1"; REPO="$PWD"
W=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cp -r "$HERE/ws" "$W/ws" && cp -r "$REPO/src" "$W/src" || exit 2
mkdir -p "$W/ffi" && cp -r "$REPO/ffi/src" "$W/ffi/src"
find "$W/ws" -name Cargo.toml -path '*pkg*' -exec sed -i "s#/repo/#$W/#" {} +
i=0
for d in "$HERE"/demo_*.rs; do
  t=$(sed -n '1s#^// *target: *##p' "$d")
  { echo; echo "#[cfg(test)]"; echo "mod vp_demo_$i {"; echo "use super::*;"; cat "$d"; echo "}"; } >> "$W/$t"
  i=$((i+1))
done
cd "$W/ws" || exit 2
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
PKG=${2:-snips-nlu-lib}
cargo +nightly test --offline -p "$PKG" --lib --no-run --message-format=json > "$W/build.json" 2> "$W/build.log" || { tail -3 "$W/build.log"; grep -o '"rendered":"[^}]*error[^}]*"' "$W/build.json" | head -c 3000; exit 3; }
BIN=$(python3 - "$W/build.json" <<'P'
import json,sys
b=None
for l in open(sys.argv[1]):
    if l.startswith('{'):
        m=json.loads(l)
        if m.get('executable') and m.get('profile',{}).get('test'): b=m['executable']
print(b)
P
)
cd "$REPO" && timeout 120 "$BIN" vp_demo_ --test-threads=4

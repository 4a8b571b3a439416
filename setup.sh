#!/bin/bash
# Nothing has to be built: checks that the tools are there and the
# specifications parse. Every check is self-contained.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d)
cd spec
for m in *.tla; do
  java -Djava.io.tmpdir="$T" -cp "$J" tla2sany.SANY "$m" > "$T/log" 2>&1 || { cat "$T/log"; exit 1; }
  if grep -q 'Parse Error\|Semantic errors\|Fatal' "$T/log"; then cat "$T/log"; exit 1; fi
done
rm -rf "$T"
echo "setup ok"

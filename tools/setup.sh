#!/bin/bash
# Nothing to build: checks that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")/../spec"
D=$(mktemp -d); cp ./*.tla "$D"; cd "$D"
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$f.log" 2>&1 || { cat "$f.log"; exit 1; }
done
/opt/venv/bin/python -c "import numpy, scipy, matplotlib, numba"
rm -rf "$D"
echo "setup done"

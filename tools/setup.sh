#!/bin/bash
# Nothing is compiled: the checks import /repo's working tree and run TLC on spec/.
# This only makes sure the two tools are there and the specifications parse.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c 'import numpy, onnx'
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d)
cp spec/*.tla "$T"
cd "$T"
for f in T_*.tla MC_*.tla Gen_*.tla; do
  [ -e "$f" ] || continue
  java -cp $CP tla2sany.SANY "$f" > out.txt 2>&1 || { cat out.txt; exit 1; }
done
cd /; rm -r "$T"

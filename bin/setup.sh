#!/bin/bash
# Nothing to build: checks that the specification parses and that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence work
/opt/venv/bin/python -c "import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'/repo'); import jinete, pulp"
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > ../work/sany.log 2>&1 \
    || { echo "specification $m does not parse"; cat ../work/sany.log; exit 1; }
done
rm -f ../work/sany.log
echo "specification parsed"

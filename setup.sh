#!/bin/bash
# nothing to build: Python harness + TLA+ modules.  Check the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
/opt/venv/bin/python -c 'import requests, flask, tornado, yaml, six'
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
for f in spec/Trace*.tla; do test -f "${f%.tla}.cfg" || [ "$f" = spec/TraceBase.tla ]; done
echo ready

#!/bin/bash
# tools/save.sh "message": refresh generated files and commit /verif
cd /verif && python3 tools/fixes.py >/dev/null; python3 tools/mkmanifest.py; git add -A; git commit -qm "$1"; git status --short | head -3

#!/bin/bash
# seedcheck.sh ID [CHECK...]: run checks (default: the one of its property) against a planted bug, in a scratch copy
d=/verif/seeded/$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=/tmp/w/sc-$(basename $d); rm -rf "$w"; cp -a /repo "$w"
git -C $w apply $d/patch.diff || exit 9
for c in $p; do echo "== $(basename $d) $c"; (cd /verif && VREPO=$w timeout 900 ./check.py $c --tier quick 2>&1 | cut -c1-500 | tail -${LINES_MAX:-3}); done
rm -rf "$w"

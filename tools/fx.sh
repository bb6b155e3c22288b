#!/bin/bash
# tools/fx.sh PROP "subject": commit the changes in /repo as a fix after running its tests
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1
r=$(bash /opt/vp/test.sh /tmp/t.json 2>&1 | tail -1); echo "$r"
[ "$r" = "294 passed, 0 failed" ] || exit 1
git commit -qam "fix: $2" && echo "$1 $2" >> /verif/tools/fixes.txt; git log --oneline | head -1

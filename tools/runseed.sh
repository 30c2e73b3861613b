#!/bin/bash
# runseed.sh SEED PROP...: apply a planted bug to /repo, run the quick checks, undo it.
S=$1; shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$S/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$S/patch.diff || exit 2
for p in $P; do python3 /verif/bin/check.py $p ${TIER:-quick} > /tmp/rs.$p.out 2>&1; echo "$S $p exit $?: $(grep -v '^built' /tmp/rs.$p.out | head -${LINES_:-2} | cut -c1-250)"; done
git -C /repo checkout -- .

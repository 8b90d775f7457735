# runplant.sh ID...: apply each planted bug to /repo-copy and run its property's check
cd /verif
for i in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
 git -C /tmp/plantwt checkout -q -- . ; git -C /tmp/plantwt apply /verif/seeded/$i/patch.diff
 GEOM_REPO=/tmp/plantwt timeout 900 python3 sa/check.py $p --tier quick > /tmp/out.$i 2>&1; echo "$i $p rc=$?"; grep -v '^P' /tmp/out.$i | head -4
 git -C /tmp/plantwt checkout -q -- .
done

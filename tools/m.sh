# m.sh prop file 'python replace expr old' new
cd /tmp/plantwt && git checkout -q -- . && git checkout -q $(git -C /repo rev-parse HEAD) 2>/dev/null
python3 - "$2" "$3" "$4" <<'P'
import sys
f,a,b=sys.argv[1:]
s=open(f).read(); assert a in s, 'no match'; open(f,'w').write(s.replace(a,b,1))
P
for p in $1; do GEOM_REPO=/tmp/plantwt timeout 900 python3 /verif/sa/check.py $p --tier quick 2>&1 | cut -c1-250 | tail -${N:-4}; done
git checkout -q -- .

cd /verif; for p in $(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c.get('property') for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || grep -o "'P[0-9]*':" sa/check.py | tr -d "':"); do timeout 900 python3 sa/check.py $p --tier quick | tail -4; echo "rc $p ${PIPESTATUS[0]}"; done

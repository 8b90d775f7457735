"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(pid, title, statement, over, text, tests, files, mech, technique=None, note=None, thorough=True, na=None):
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': tests,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
        '_t': technique, '_n': note, '_na': na, '_th': thorough,
    })


GV = 'gated value graphs with loop summaries, compared by normal forms and loop invariants'
GVN = ('Static: the MIR of the current tree is turned into value graphs (loops summarised by recurrences, kept as folds otherwise) and the obligation is '
       'that the computed graph equals the required one. Real arithmetic, not IEEE rounding; library models (glam, grid, std iterators and vectors) are trusted. '
       'Obligations whose normal forms differ but are not separated by random interpretation of the graphs are reported as not discharged, never as violations.')

exec(open(os.path.join(V, 'tools', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
        assert len(p['title']) <= 80, p['id']
checks, na = [], []
for p in PROPS:
    if p['_na']:
        na.append({'property': p['id'], 'reason': p['_na']})
    else:
        c = {'property': p['id'], 'quick_cmd': 'python3 sa/check.py %s --tier quick' % p['id']}
        if p['_th']:
            c['thorough_cmd'] = 'python3 sa/check.py %s --tier thorough' % p['id']
        c.update(technique=p['_t'], level='other', level_note=p['_n'])
        checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'python3 sa/dump.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis of the compiler\'s MIR; see DESIGN.md. known_findings.txt lists repaired defects.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

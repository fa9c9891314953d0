"""writes MANIFEST.json from the checks that exist and the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'static: path-sensitive abstract interpretation (typestate) over rustc MIR plus call-graph rules'
NOTE = ('Static. Every abstract path of the named functions is enumerated over MIR regenerated from the working tree; collections and loops are '
        'k-limited (2 elements/3 iterations quick, 3 thorough), code not inlined is unknown. No unsound assumption about callers beyond those listed in the evidence; '
        'guarantee is per function with contracts at the listed boundaries, not a machine-checked proof.')
TECH, NOTES, NA = {}, {}, {}
exec(open(os.path.join(V, 'tools', 'manifest_table.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                       'technique': TECH.get(i, AI), 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'.\'); from engine import facts; facts.ensure(\'/repo\')"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the compiler\'s own MIR of the unmodified tree.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props
props.P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                        'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
        assert len(p['title']) <= 80, p['id']
m = {'version': 1, 'setup_cmd': 'python3-vt engine/lemmas.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: contracts live in /verif/contracts and are compiled together with the real sources (header-only configuration) on every run.'}
for p in props.P:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt engine/check.py ' + p['id'],
                            'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % p['id'],
                            'technique': p['tech'] or props.TECH, 'level': p['level'], 'level_note': p['note'] or props.NOTE})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')

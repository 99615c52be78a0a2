"""Writes /verif/properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, state=state or [], na=na))


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                                        'mechanism': [dict(name=a, where=b) for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks = [{'property': p['id'], 'quick_cmd': f"./run {p['id']} quick", 'thorough_cmd': f"./run {p['id']} thorough", 'technique': p['technique'],
           'level': 'exploration', 'level_note': p['note']} for p in P if not p['na'] and os.path.exists(os.path.join(V, 'vk', 'checks', p['id'].lower() + '.py'))]
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': p['na'] or 'check not built yet'} for p in P if p['na'] or not os.path.exists(os.path.join(V, 'vk', 'checks', p['id'].lower() + '.py'))]},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
S = 'sparta/sparta/'
P = []


def p(id, title, statement, over, text, why, files, mech, state, obs):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [f if f.startswith('sparta/') else S + f for f in files], 'mechanism': mech, 'state': state, 'observe_at': obs, 'hook_needed': None}})


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_src.py')).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))

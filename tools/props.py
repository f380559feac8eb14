#!/usr/bin/env python3
"""Source of properties.jsonl (development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    out.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why, 'anchors': a})


exec(open(V + '/tools/props_data.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
print(len(out), 'properties')

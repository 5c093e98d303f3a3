#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (one source for both)."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(id, title, statement, over, quant, tests, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, technique=technique, note=note, observe=observe))
def na(id, title, statement, over, quant, tests, files, mech, reason):
    prop(id, title, statement, over, quant, tests, files, mech, None, None)
    NA.append((id, reason))
src = open(os.path.join(D, 'tools', 'props.py')).read()
exec(compile(src, 'props.py', 'exec'))
P.sort(key=lambda p: p['id'])
assert len({p['id'] for p in P}) == len(P)
with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['tests'], 'anchors': a}) + '\n')
man = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': [{'property': i, 'reason': r} for i, r in NA]}
for p in P:
    if p['technique']:
        man['checks'].append({'property': p['id'], 'quick_cmd': f"bin/run {p['id']} quick", 'thorough_cmd': f"bin/run {p['id']} thorough", 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump(man, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
for p in P:
    for x in p['files']:
        assert os.path.exists('/repo/' + x) , x
print(len(P), 'properties', len(man['checks']), 'checks')

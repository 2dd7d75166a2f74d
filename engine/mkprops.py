"""Writes /verif/properties.jsonl from the table below (kept readable here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    a = dict(files=['src/tool1cd/' + f if not f.startswith('src/') else f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'proofs', 'properties.py')).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in sorted(P, key=lambda x: x['id']):
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
ids = [x['id'] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x['title']) <= 80, x['id']

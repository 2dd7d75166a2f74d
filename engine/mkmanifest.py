"""Writes MANIFEST.json: one check per proofs/<ID>/spec.py, every other property not applicable with its reason."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
exec(open(V + '/proofs/not_applicable.py').read())
from prove import load_spec
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/proofs/{i}/spec.py'):
        s = load_spec(i)
        b = [n for n, e in s.ENTRIES.items() if e.get('level') == 'bounded']
        note = getattr(s, 'NOTE', '')
        proofs = [n for n, e in s.ENTRIES.items() if e.get('level') != 'bounded' and not e.get('known')]
        note = (note + ' ' if note else '') + f'{len(proofs)} contract entries proved for all inputs they quantify over'
        if b:
            note += f'; bounded stand-ins (not counted as proved): ' + '; '.join(f'{n}: {s.ENTRIES[n]["bound"]}' for n in b)
        checks.append(dict(property=i, quick_cmd=f'python3-vt engine/check.py {i}', thorough_cmd=f'python3-vt engine/check.py {i} --thorough',
                           technique='contract-based deductive verification: contracts on the real functions, VCs generated from clang IR of the current sources, discharged by z3/cvc5; failed obligations replayed on the real code',
                           level='proof', level_note=note))
    else:
        na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd='python3-vt engine/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: contracts are C++ harnesses in /verif/proofs linked with the unmodified sources.'), open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')

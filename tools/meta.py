"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

TECH = 'contract-based deductive verification of the real source (pyvc: contracts + loop invariants, z3 + polynomial normal forms)'


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), level='proof', note='', tech=TECH, cmd=None, na=None, theorems=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                                hook_needed=None)),
              dict(level=level, note=note, tech=tech, cmd=cmd or f'python3-vt -m pyvc.check {id}', na=na)))


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(f'{V}/properties.jsonl', 'w') as f:
    for p, _ in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p, c in P:
    if c['na']:
        na.append(dict(property=p['id'], reason=c['na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd=c['cmd'] + ' --tier quick', thorough_cmd=c['cmd'] + ' --tier thorough',
                       evidence_file=f'evidence/{p["id"]}.json', technique=c['tech'], level=c['level'], level_note=c['note']))
json.dump(dict(version=1, setup_cmd=SETUP, checks=checks, not_applicable=na, notes=NOTES), open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

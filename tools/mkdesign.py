"""Regenerates the tables of DESIGN.md (properties, planted bugs) between their markers."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {}
exec(open(os.path.join(V, 'tools', 'design_how.py')).read())
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
man = json.load(open(f'{V}/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
out = []
for p in props:
    i = p['id']
    out.append(f'### {i}: {p["title"]}\n')
    if i in na:
        out.append(f'Not applicable. {na[i]}\n')
        continue
    out.append(HOW[i].strip() + '\n')
    e = f'{V}/evidence/{i}.json'
    if os.path.exists(e):
        ev = json.load(open(e))
        c = ev['coverage']
        out.append(f'Last run here: {c["obligations"]} obligations over {len(c["functions"])} functions, '
                   f'{c.get("solver_s", 0):.0f} s of solver time, {ev["wall_s"]:.0f} s in all.\n')
seeds = ['| planted bug | property | needs | breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.append(f'| {os.path.basename(os.path.dirname(m))} | {d["property"]} | {d["needs"]} | {d["what_it_breaks"]} |')
t = open(f'{V}/DESIGN.md').read()
for tag, body in (('PROPS', '\n'.join(out)), ('SEEDS', '\n'.join(seeds))):
    t = re.sub(f'<!--{tag}-->.*?<!--/{tag}-->', lambda _: f'<!--{tag}-->\n{body}\n<!--/{tag}-->', t, flags=re.S)
open(f'{V}/DESIGN.md', 'w').write(t)

"""writes DESIGN.md from design_text.py, the harnesses (bounds), the evidence (functions, cost) and the planted bugs"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from design_text import HEAD, HOW, TAIL
out = [HEAD, '## 2. The properties\n']
cost = json.load(open(os.path.join(V, 'tools', 'cost.json'))) if os.path.exists(os.path.join(V, 'tools', 'cost.json')) else {}
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    m = importlib.import_module('harness.' + i)
    how, why = HOW[i]
    out.append(f'### {i} {p["title"]}\n\n{how}\nBeyond the tests: {why}.\n')
    for h in m.HARNESSES:
        out.append(f'- `{h.name}`: {h.bounds or "as stated in the harness"}')
    for a in getattr(m, 'ASSUMPTIONS', []):
        out.append(f'- assumption: {a}')
    c = cost.get(i)
    if c:
        out.append(f'- quick run: {c["paths"]} paths, {c["obligations"]} obligations, {c["queries"]} queries, {c["wall"]:.0f} s on 8 cores' + (f'; thorough: {c["t_paths"]} paths, {c["t_obligations"]} obligations, {c["t_wall"]:.0f} s' if 't_wall' in c else ''))
        out.append(f'- encoded: ' + ', '.join(c['functions']))
    out.append('')
k = [l.rstrip('\n') for l in open(os.path.join(V, 'known_findings.jsonl'))]
op = [f'- {json.loads(l)["property"]}: {json.loads(l)["what"]}' for l in k if l.startswith('{')]
fx = ['- ' + l[len('fixed: property='):] for l in k if l.startswith('fixed:')]
seeds = ['| planted bug | needs | breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    e = json.load(open(os.path.join(d, 'meta.json')))
    seeds.append(f'| {os.path.basename(d)} | {e["needs"]} | {e["what_it_breaks"]} | {cost.get("_seeds", {}).get(os.path.basename(d), e["property"])} |')
mut = cost.get('_mut', 'see the harnesses\' comments.')
out.append(TAIL % dict(open='\n'.join(op), fixed='\n'.join(fx), seeds='\n'.join(seeds), mut=mut))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)))

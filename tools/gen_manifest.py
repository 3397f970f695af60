"""writes MANIFEST.json: one check per harness file, the rest not applicable"""
import json, os, importlib.util, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
T = ('bounded symbolic execution of the real Python source (loaded from /repo/src at run time): inputs are SMT variables, each path '
     'condition and each assertion is decided by z3 over all values; counterexamples are replayed on the unmodified code')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i + '.py')):
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'technique': T, 'level': 'model_checking',
                       'level_note': 'all values within the stated bounds (sizes, lengths, ranges) of each harness; floats modelled as reals'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not yet built')})
m = {'version': 1, 'setup_cmd': '/bin/true', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks in /repo: the checks instrument the source in memory when they load it.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

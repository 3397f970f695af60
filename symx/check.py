"""Runs the check of one property: explores every harness case symbolically (in parallel processes), replays
counterexamples and a sample of witnesses on the real code, writes the evidence file, sets the exit code."""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [VERIF] + [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(VERIF, 'symx')]
sys.dont_write_bytecode = True
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


class Harness:
    """name; fn(I); cases(tier) -> list of dicts; limits(tier) -> dict(time=..., ...)"""

    def __init__(self, name, fn, cases=None, quick=None, thorough=None, bounds='', covers=''):
        self.name, self.fn = name, fn
        self._cases = cases or (lambda tier: [{}])
        self.quick = dict(time=20, witnesses=2)
        self.quick.update(quick or {})
        self.thorough = dict(time=240, witnesses=6)
        self.thorough.update(thorough or {})
        self.bounds, self.covers = bounds, covers

    def cases(self, tier):
        return list(self._cases(tier))

    def limits(self, tier):
        return self.quick if tier == 'quick' else self.thorough


def worker(prop, jobs, results, tier, tmp):
    try:
        from symx import shadow
        shadow.install()
        from symx import engine
        m = importlib.import_module('harness.' + prop)
        hs = {h.name: h for h in m.HARNESSES}
        importlib.import_module('craterstats')
    except BaseException as e:
        import traceback
        results.put(('fatal', traceback.format_exc()))
        return
    while True:
        j = jobs.get()
        if j is None:
            return
        k, name, case = j
        h = hs[name]
        try:
            r = engine.run_case(h.fn, case, tier, h.limits(tier), tmp)
        except BaseException as e:
            import traceback
            r = dict(case=case, crash=traceback.format_exc())
        r['harness'] = name
        results.put(('done', k, r))


def replay_batch(entries, timeout):
    """results of concrete runs of the entries on the real code"""
    if not entries:
        return []
    env = dict(os.environ, PYTHONPATH=os.environ.get('SYMX_SRC', '/repo/src'), PYTHONHASHSEED='0')
    f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump({'batch': entries}, f)
    f.close()
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'symx', 'replay.py'), f.name], env=env,
                           capture_output=True, text=True, timeout=timeout)
        out = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{"result"')]
        if len(out) < len(entries):
            out += [{'result': 'error', 'what': p.stderr[-500:]}] * (len(entries) - len(out))
        return out
    except subprocess.TimeoutExpired as e:
        txt = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        out = [json.loads(l) for l in txt.splitlines() if l.startswith('{"result"')]
        return out + [{'result': 'error', 'what': 'timeout'}] * (len(entries) - len(out))
    finally:
        os.unlink(f.name)


def robust(e):
    """a failing witness counts only if it also fails at every one of several slightly different inputs (a float that
    falls on the other side of a limit than the real number it stands for is no violation)"""
    import random
    r = random.Random(1)
    ents = []
    for k in range(4):
        v = {n: x * (1 + r.uniform(-1, 1) * 1e-5) if isinstance(x, float) else x for n, x in e['values'].items()}
        ents.append(dict(e, values=v))
    out = replay_batch(ents, 200)
    return all(o['result'] in ('violation', 'skip') for o in out) and any(o['result'] == 'violation' for o in out)


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and l.startswith('{'):
                out.append(json.loads(l))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--procs', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    m = importlib.import_module('harness.' + prop)
    cap = 780 if tier == 'quick' else 3000
    tmp = tempfile.mkdtemp(prefix='symx_')
    try:
        return run(a, m, prop, tier, tmp, t0, cap)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, m, prop, tier, tmp, t0, cap):
    jobs_list = []
    for h in m.HARNESSES:
        if a.only and a.only not in h.name:
            continue
        for case in h.cases(tier):
            jobs_list.append((h.name, case))
    ctxm = mp.get_context('spawn')
    jobs, results = ctxm.Queue(), ctxm.Queue()
    for k, (n, c) in enumerate(jobs_list):
        jobs.put((k, n, c))
    nproc = min(a.procs, len(jobs_list))
    for _ in range(nproc):
        jobs.put(None)
    procs = [ctxm.Process(target=worker, args=(prop, jobs, results, tier, tmp), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()
    done = {}
    fatal = []
    while len(done) < len(jobs_list):
        try:
            r = results.get(timeout=2)
        except queue.Empty:
            if time.time() - t0 > cap or not any(p.is_alive() for p in procs):
                break
            continue
        if r[0] == 'fatal':
            fatal.append(r[1])
            if len(fatal) == nproc:
                break
        else:
            done[r[1]] = r[2]
            if a.v:
                x = r[2]
                print(f"  {x['harness']} {json.dumps(x['case'])}: paths={x.get('paths')} obl={x.get('obligations')}/{x.get('discharged')} "
                      f"q={x.get('queries')} solver={x.get('solver_s')}s wall={x.get('wall')} complete={x.get('complete')} pinned={x.get('pinned')} "
                      f"und={len(x.get('undecided', []))} {x.get('undecided', [])[:2]} {x.get('errors', [])[:2]} {x.get('crash', '')}")
                for lab, vals, info in x.get('cex', [])[:2]:
                    print('    CEX', lab, json.dumps(vals[:1])[:300], info)
    for p in procs:
        p.terminate()
    res = list(done.values())
    problems = list(fatal)
    lost = [jobs_list[k] for k in range(len(jobs_list)) if k not in done]

    # ---------------------------------------------------------------- replay counterexamples on the real code
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    violations, spurious, undecided = [], [], []
    tried = {}
    for r in res:
        if 'crash' in r:
            problems.append(r['crash'])
            continue
        undecided += r['undecided']
        for label, vals, info in r['cex']:
            ents = [dict(property=prop, harness=r['harness'], case=r['case'], tier=tier, values=v) for v in vals]
            if len(violations) >= 3 or len(spurious) >= 6 or time.time() - t0 > cap:
                break
            tried[label] = tried.get(label, 0) + 1
            if tried[label] > 4:
                undecided.append(label)
                continue
            out = replay_batch(ents, 60 * max(1, len(ents)))
            hit = next((i for i, o in enumerate(out) if o['result'] == 'violation'), None)
            if hit is None:
                if info == 'soft':
                    undecided.append(label)
                else:
                    spurious.append((label, vals[:1], out[:1]))
            else:
                path = os.path.join(VERIF, 'evidence', 'replay', f'{prop}-{len(violations)}.json')
                ents[hit]['label'], ents[hit]['observed'] = label, out[hit]['what']
                json.dump(ents[hit], open(path, 'w'), indent=1)
                violations.append((path, out[hit]['what'], label))

    # ---------------------------------------------------------------- witnesses: same harness, real code
    ents = [dict(property=prop, harness=r['harness'], case=r['case'], tier=tier, values=v)
            for r in res if 'crash' not in r for v in r['witnesses']]
    lim = 60 if tier == 'quick' else 300
    if len(ents) > lim:
        ents = ents[::max(1, len(ents) // lim)][:lim]
    validated = mism = 0
    if ents and not violations:
        chunks = [ents[i::6] for i in range(6)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            outs = list(ex.map(lambda c: replay_batch(c, 240), chunks))
        for ch, out in zip(chunks, outs):
            for e, o in zip(ch, out):
                if o['result'] in ('ok', 'skip'):
                    validated += o['result'] == 'ok'
                elif o['result'] == 'violation':
                    mism += 1
                    if len(violations) < 5 and robust(e):
                        path = os.path.join(VERIF, 'evidence', 'replay', f'{prop}-{len(violations)}.json')
                        e['label'], e['observed'] = 'witness of a discharged path', o['what']
                        json.dump(e, open(path, 'w'), indent=1)
                        violations.append((path, o['what'], 'witness replay'))
                else:
                    problems.append(o['what'])

    # ---------------------------------------------------------------- known findings
    known_out = []
    for kf in load_known():
        if kf['property'] != prop or kf.get('status') != 'open':
            continue
        o = replay_batch([dict(property=prop, harness=kf['harness'], case=kf['case'], tier=tier, values=kf['values'])], 90)[0]
        if o['result'] == 'violation':
            known_out.append(kf)
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")

    # ---------------------------------------------------------------- vacuity
    reached = {}
    for r in res:
        for k, v in r.get('reached', {}).items():
            reached[r['harness'] + ':' + k] = reached.get(r['harness'] + ':' + k, 0) + v
    vacuous = []
    for h in m.HARNESSES:
        if a.only and a.only not in h.name:
            continue
        rs = [r for r in res if r['harness'] == h.name and 'crash' not in r]
        if rs and not violations and sum(r['obligations'] for r in rs) == 0:
            vacuous.append(h.name)
            print(f'note: harness {h.name} reached no assertion ({sum(len(r["undecided"]) for r in rs)} undecided paths)')
    if not violations and not any(r.get('obligations') for r in res):
        problems.append('no assertion reached')

    tot = lambda k: sum(r.get(k, 0) or 0 for r in res)
    wall = time.time() - t0
    level = getattr(m, 'LEVEL', 'model_checking')
    samples = [dict(harness=e['harness'], case=e['case'], values=e['values']) for e in ents[:6]]
    enc = sorted({f for r in res for f in r.get('encoded', [])})
    cov = dict(
        states=max(tot('paths'), 0), transitions=tot('branches'), traces_validated_against_impl=validated, samples=samples,
        explanation='bounded symbolic execution of the real source: states = feasible paths explored to their end, '
                    'transitions = symbolic branch decisions sent to the solver; every assertion on a path is an SMT query '
                    'over all input values of that path; samples = solver models of explored paths, re-run on the real code',
        functions_encoded=enc, bounds={h.name: h.bounds for h in m.HARNESSES},
        harness_cases=len(jobs_list), cases_finished=len([r for r in res if 'crash' not in r]),
        cases_explored_completely=sum(1 for r in res if r.get('complete')), cases_lost=len(lost),
        solver_queries=tot('queries'), solver_s=round(tot('solver_s'), 2), obligations=tot('obligations'),
        discharged=tot('discharged'), discharged_by_algebraic_identity=tot('identities'), inconclusive_obligations=tot('inconclusive'), unknown_branch_queries=tot('unknown'),
        concretised_values=tot('pinned'), paths_undecided=len(undecided), undecided_examples=sorted(set(undecided))[:8],
        inconclusive_examples=sorted({e for r in res for e in r.get('errors', [])})[:8],
        infeasible_prefixes=tot('infeasible'), reachability=reached, witness_mismatches=mism,
        unconfirmed_counterexamples=[str(x[0]) for x in spurious], harnesses_without_assertion=vacuous, known_findings=[k['what'] for k in known_out], exhaustive=False)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov,
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + ['machine floats are modelled as real numbers; comparisons use stated tolerances',
                                                                'solver: z3 (python API)'],
              wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)

    print(f"{prop} [{tier}] paths={tot('paths')} branches={tot('branches')} obligations={tot('obligations')} discharged={tot('discharged')} "
          f"inconclusive={tot('inconclusive')} undecided={len(undecided)} pinned={tot('pinned')} queries={tot('queries')} "
          f"solver={tot('solver_s'):.1f}s validated={validated} complete={cov['cases_explored_completely']}/{len(jobs_list)} wall={wall:.1f}s")
    if a.v:
        for u in sorted(set(undecided))[:10]:
            print('  undecided:', u)
    if violations:
        for path, what, label in violations:
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  {label}: {what}')
        return 1
    for s in spurious[:3]:
        print('unconfirmed (solver counterexample that the real code does not reproduce; counted as undecided):', str(s)[:600])
    if problems:
        print('check error:', problems[0][-1500:])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())

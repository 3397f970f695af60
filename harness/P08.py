"""P08: tabulated root-2 incremental production functions."""
import os
import re
from symx.check import Harness
from harness.util import *

SRC = os.path.join(os.environ.get('SYMX_SRC', '/repo/src'), 'craterstats/config/functions.txt')


def shipped():
    t = open(SRC, encoding='utf-8-sig').read()
    t = '\n'.join(l for l in t.splitlines() if not l.lstrip().startswith('#'))
    out = []
    for b in re.findall(r'^production\s*=\s*\{(.*?)^\s*\}', t, re.S | re.M):
        if 'tabular incremental root-2' in b:
            out.append((re.search(r"name='(.*?)'\s*$", b, re.M).group(1), [float(x) for x in re.search(r'\bH=\*?\[(.*?)\]', b, re.S).group(1).split(',')],
                        int(re.search(r'index_1km=(\d+)', b).group(1))))
    return out


def table(H, i1):
    """node diameters and sums"""
    n = len(H)
    dmin = [2 ** ((i - i1) / 2) for i in range(n)]
    return dmin, [d * 2 ** .25 for d in dmin], [sum_(H[i:]) for i in range(n)]


def centre_density(I, H, S, dmean, i):
    """differential density at the centre of bin i, for a count over the bin of H[i] and the local cumulative slope"""
    np = I.np
    j = min(i, len(H) - 2)
    k = np.log10(S[j] / S[j + 1]) / math.log10(2 ** .5)
    u = (S[j] / S[j + 1]) ** .5        # (root 2)^(k/2)
    bias = (u - 1 / u) / (k * (2 ** .25 - 2 ** -.25))
    return H[i] / (dmean[i] * (2 ** .25 - 2 ** -.25)) / bias


def make(I, H, i1):
    return I.cst.Productionfn({'production': [{'name': 'x', 'type': 'tabular incremental root-2', 'H': list(H), 'index_1km': i1}]}, 'x')


def h_nodes(I):
    """any table: values at the nodes, in every form"""
    np = I.np
    n, i1, i = I.case['n'], I.case['i1'], I.case['node']
    if I.case.get('f'):
        # sums given by their logarithms, so that the slopes are linear
        s = [I.log(f's{k}', 1e-6, 1e6) for k in range(n)]
        for k in range(n - 1):
            I.assume(s[k] >= s[k + 1] * 1.05)
        H = [a - b for a, b in zip(s, s[1:])] + s[-1:]
    else:
        H = [I.real(f'H{k}', 1e-4, 1e4) for k in range(n)]
    a0 = I.real('a0', -8., 4.) if I.case['a0'] else 0.
    pf = make(I, H, i1)
    dmin, dmean, S = table(H, i1)
    s = 10 ** a0 / S[i1]
    ev = lambda p, d: pf.evaluate(p, np.array([d]), a0)[0]
    I.close(ev('cumulative', dmin[i]), S[i] * s, 'cumulative at a bin limit', rtol=1e-6)
    I.close(ev('Hartmann', dmean[i]), H[i] * s, 'Hartmann value at a bin centre', rtol=1e-6)
    f = centre_density(I, H, S, dmean, i) * s
    if I.case.get('f'):
        got = ev('differential', dmean[i])
        I.close(got, f, 'bias-corrected differential at a bin centre', rtol=1e-6)
        I.close(ev('R-plot', dmean[i]), f * dmean[i] ** 3, 'R value at a bin centre', rtol=1e-6)
    x = np.log10(dmin[i])
    I.close(10 ** pf.C10(np.array([x]), a0)[0], S[i] * s, 'log cumulative', rtol=1e-6)
    I.close(pf.range[0], dmean[0], 'valid from the first bin centre', rtol=1e-9)
    I.close(pf.range[1], dmean[-1], 'valid to the last bin centre', rtol=1e-9)
    I.reach('nodes')


def h_between(I):
    """shipped and other fixed tables: any diameter, any constant term"""
    np = I.np
    name, H, i1 = (shipped() + [('short', [5., 3., 2., .4, .35], 2), ('steep', [1e3, 1e2, 1., 1e-3], 0)])[I.case['t']]
    pf = I.cst.Productionfn(SRC, name) if name not in ('short', 'steep') else make(I, H, i1)
    dmin, dmean, S = table(H, i1)
    n = len(H)
    seg = I.case['seg'] % (n - 1)
    a0 = I.real('a0', -8., 4.) if I.case['a0'] else None
    b0 = 0. if a0 is None else a0
    d = I.log('d', dmean[seg], dmin[seg + 2] if seg + 2 < n else dmean[n - 1])
    x = np.log10(d)

    def interp(nodes, vals, x):
        """log-log interpolation on the segment x is in"""
        for k in range(len(nodes) - 1):
            lo, hi = math.log10(nodes[k]), math.log10(nodes[k + 1])
            if bool(x <= hi):
                break
        else:
            return np.log10(vals[-1]) + b0
        w = (x - lo) / (hi - lo)
        return math.log10(vals[k]) + w * (math.log10(vals[k + 1]) - math.log10(vals[k])) + b0
    f = [centre_density(I, H, S, dmean, k) / S[i1] for k in range(n)]
    ev = lambda p: pf.evaluate(p, np.array([d]), a0)[0]
    want = {'cumulative': interp(dmin, [e / S[i1] for e in S], x), 'Hartmann': interp(dmean, [e / S[i1] for e in H], x),
            'differential': interp(dmean, f, x), 'R-plot': interp(dmean, f, x) + 3 * x}
    for p, y in want.items():
        I.close(ev(p), 10 ** y, f'{p} interpolated in log-log space', rtol=1e-6)
    for fn, p in ((pf.C10, 'cumulative'), (pf.F10, 'differential')):
        I.close(10 ** fn(np.array([x]), b0)[0], 10 ** want[p], f'log form of {p}', rtol=1e-6)
    I.reach('between')


def cases_nodes(tier):
    for n, i1 in ((3, 1), (4, 0), (4, 3)) if tier == 'quick' else ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 0), (4, 3), (5, 2), (6, 1)):
        for node in range(n):
            for a0 in (0, 1):
                yield dict(n=n, i1=i1, node=node, a0=a0)
                if a0 and (n == 3 or tier != 'quick'):
                    yield dict(n=n, i1=i1, node=node, a0=1, f=True)


def cases_between(tier):
    nt = len(shipped()) + 2
    for t in range(nt):
        for seg in (0, 1, 7, 12, 13, 15, 24, -1, -2) if tier == 'quick' else range(-2, 40):
            yield dict(t=t, seg=seg, a0=1)
        yield dict(t=t, seg=3, a0=0)


HARNESSES = [
    Harness('nodes', h_nodes, cases_nodes, quick=dict(time=60), bounds='tables of 3..4 (thorough 2..6) entries 1e-4..1e4, any reference entry, constant terms -8..4'),
    Harness('between', h_between, cases_between, bounds='shipped and two fixed tables, any diameter of the chosen segments (thorough: all), any constant term'),
]

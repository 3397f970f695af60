"""P14: production-function curves and isochrons."""
from symx.check import Harness
from harness.util import *

A = {'lin': [-2., -2.5], 'quad': [-2., -3.2, .3], 'steep': [1., -4.]}
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']


def pf_(I, name, r=None, eq=False):
    d = {'name': 'x', 'coefficients': list(A[name])}
    if r:
        d['range'] = list(r)
    return I.cst.Productionfn({'equilibrium' if eq else 'production': [d]}, 'x', equilibrium=eq)


def form(I, name, pres, d, a0):
    np = I.np
    x = np.log10(d)
    a = [a0] + A[name][1:]
    C = 10 ** sum_(c * x ** i for i, c in enumerate(a))
    if pres == 'cumulative':
        return C
    F = -1 * C * sum_(i * c * x ** (i - 1) for i, c in enumerate(a) if i) / d
    return F if pres == 'differential' else F * d ** 3 if pres == 'R-plot' else F * d * (2 ** .25 - 2 ** -.25)


def h_curve(I):
    """range requested and clipped; a value of the function at every point"""
    np = I.np
    pres, name = I.case['pres'], I.case['pf']
    pf = pf_(I, name, I.case['pfrange'])
    plo, phi_ = I.case['pfrange'] or (1e-4, 2e3)
    a0 = None if I.case['a0'] == 'none' else 0. if I.case['a0'] == 'zero' else I.real('a0', -12., 6.)
    b0 = A[name][0] if a0 is None else a0
    if I.case['range'] == 'none':
        p = pf.getplotdata(pres, a0)
        lo, hi = plo, phi_
    elif I.case['range'] == 'sym':
        lo, hi = I.log('lo', 1e-6, 1e5), I.log('hi', 1e-6, 1e5)
        I.assume(hi >= lo * 1.001)
        p = pf.getplotdata(pres, a0, range=np.array([lo, hi]))
    else:
        lo, hi = I.case['range']
        p = pf.getplotdata(pres, a0, range=[lo, hi])
    clip = lambda x: plo if x <= plo else phi_ if x >= phi_ else x
    lo, hi = clip(lo), clip(hi)
    d, y = p['d'], p['y']
    m = len(d)
    I.check(p['presentation'] == pres and len(y) == m and m >= 2, 'a value per diameter')
    I.close(d[0], lo, 'curve starts at the clipped range', rtol=1e-4)
    I.close(d[m - 1], hi, 'curve ends at the clipped range', rtol=1e-4)
    if I.case['range'] != 'sym':
        for i in range(m):
            I.close(y[i], form(I, name, pres, float(d[i]), b0), 'value is that of the function', rtol=1e-4)
            I.check(i == 0 or d[i] > d[i - 1], 'diameters increase')
    else:
        for i in sorted({0, 1, m // 3, m // 2, m - 2, m - 1}):
            I.close(y[i], form(I, name, pres, d[i], b0), 'value is that of the function', rtol=1e-4)
            I.check(i == 0 or d[i] >= d[i - 1], 'diameters increase')
    I.reach('curve')


def h_iso(I):
    """isochron cut at equilibrium"""
    np = I.np
    pres, name = I.case['pres'], I.case['pf']
    pf = pf_(I, name, I.case['pfrange'])
    a0 = I.real('a0', *I.case['a0'])
    ef = pf_(I, 'steep' if I.case['ef'] == 'steep' else 'lin', I.case['efrange'], eq=True)
    ef.a[0] = 0.
    whole = pf.getplotdata(pres, a0)
    e = ef.getplotdata(pres)
    none = pf.getisochron(pres, a0, None)
    I.check(len(none['d']) == len(whole['d']), 'without equilibrium function the whole curve')
    iso = pf.getisochron(pres, a0, ef)
    I.check(iso['presentation'] == pres and len(iso['y']) == len(iso['d']), 'a value per diameter')
    ed, ey = [float(x) for x in e['d']], list(e['y'])
    pos, k = {float(d): i for i, d in enumerate(whole['d'])}, -1
    kept = set()
    for d, y in zip(iso['d'], iso['y']):
        i = pos.get(float(d))
        I.check(i is not None and i > k, 'points of the curve, in order')
        I.close(y, whole['y'][i], 'unchanged', rtol=1e-9)
        I.close(none['y'][i], whole['y'][i], 'unchanged', rtol=1e-9)
        k = i
        kept.add(i)
    t = 1 + 1e-6
    for i, d in enumerate(whole['d']):
        d = float(d)
        if any(abs(x / d - 1) < 1e-9 for x in ed):
            continue      # on a tabulated diameter: either neighbour
        j = sum(x < d for x in ed) - 1
        lim = .8 * ey[max(j, 0)]
        y = whole['y'][i]
        I.check(y <= lim * t if i in kept else y * t >= lim, 'kept exactly below 80 % of equilibrium')
    I.reach('iso' + ('-some' if 0 < len(kept) < len(pos) else ''))


def cases_curve(tier):
    for pres in PRES:
        for name in A:
            for a0 in ('none', 'zero', 'any'):
                for r in ('none', (.5, 20.), (1e-5, 1e4)) if tier != 'quick' or a0 == 'any' else ('none',) if name != 'lin' else ((.5, 20.),):
                    yield dict(pres=pres, pf=name, pfrange=None if name == 'lin' else [.01, 300.], a0=a0, range=r if type(r) is str else list(r))
        for a0 in ('none', 'any'):
            for pr in (None, [.01, 300.]) if tier != 'quick' else (None,) if a0 == 'any' and pres in ('cumulative', 'R-plot') else ([.01, 300.],):
                yield dict(pres=pres, pf='lin', pfrange=pr, a0=a0, range='sym')


def cases_iso(tier):
    for pres in PRES if tier != 'quick' else PRES[:2]:
        for ef in ('steep', 'flat'):
            for er in (None, [.1, 10.]) if pres == 'cumulative' or tier != 'quick' else ([.1, 10.],):
                for a in ((-3., -2.98), (-.3, -.28), (1., 1.02)) if tier == 'quick' else [(x / 10, x / 10 + .1) for x in range(-40, 30)]:
                    yield dict(pres=pres, pf='quad' if ef == 'steep' else 'lin', ef=ef, pfrange=[.01, 300.], efrange=er, a0=list(a))


HARNESSES = [
    Harness('curve', h_curve, cases_curve, bounds='three functions, validity range given or not; requested range none, fixed or symbolic 1e-6..1e5; constant term none, zero or any -12..6'),
    Harness('iso', h_iso, cases_iso, bounds='two production and equilibrium functions, equal or narrower validity; constant terms in three (thorough 70) windows'),
]

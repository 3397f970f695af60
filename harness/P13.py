"""P13: resurfacing correction."""
from symx.check import Harness
from harness.util import *


class Pf:
    """any production function and any fit: the k-th fit returns a marker, evaluating it at the largest diameter a free value"""

    def __init__(self, I, values):
        self.I, self.values, self.fits, self.evals = I, values, [], []

    def fit(self, p):
        self.fits.append(p)
        y = list(p['y'])
        self.fits[-1] = dict(presentation=p['presentation'], d=list(p['d']), y=y)
        return [len(self.fits), None, None]

    def evaluate(self, presentation, d, a0=None):
        if self.I.case.get('pres') == 'differential' and a0 is None:
            return d ** -3.      # bias correction slope
        self.evals.append((presentation, d, a0))
        return self.values[a0 - 1]

    def C(self, d, a0):
        return self.evaluate('cumulative', d, a0)


def h_offset(I):
    np = I.np
    occ, r, m = I.case['occ'], I.case['range'], I.case['m']
    k = len(occ)
    lim = [2. ** (i / 2) for i in range(-1, k)]
    n = [I.real(f'n{i}', .5, 1e3) if o else 0. for i, o in enumerate(occ)]
    ev = [3 * i + 2 if o else 0 for i, o in enumerate(occ)]
    area = I.real('area', 1., 1e6)
    cc = binned_count(I, lim[:-1], lim[-1], n, ev, area)
    before = {x: list(v) for x, v in cc.binned.items()}
    cum = [sum_(n[i:]) / area for i in range(k)]
    lo, hi = r
    sel = [i for i in range(lo, hi) if occ[i]]
    show = [i for i in range(0 if I.case['showall'] else lo, hi) if occ[i]]
    v = [I.real(f'v{i}', -1., 1e3) for i in range(m)]
    if I.case.get('settle'):
        v = v + [v[-1]] * 40
    else:
        v = (v + [5., 9.]) * 20
    pf = Pf(I, v)
    p = cc.getplotdata('cumulative', 'root-2', range=[lim[lo], lim[hi]], resurfacing=1, showall=I.case['showall'], pf=pf)
    I.check(len(p['d']) == len(show), 'points shown')
    adj = p['y'][0] - cum[show[0]]
    for j, i in enumerate(show):
        I.close(p['y'][j], cum[i] + adj, 'one common offset', rtol=1e-7, atol=1e-9)
        I.close(p['d'][j], lim[i], 'diameters unaffected', rtol=1e-9)
        I.close(p['err'][j] * ev_cum(ev, i) ** .5, p['y'][j], 'errors', rtol=1e-6, atol=1e-9)
    I.close(p['n'], sum_(n[i] for i in show), 'number of craters unaffected', rtol=1e-7)
    I.check(p['n_event'] == sum(ev[i] for i in show), 'number of events unaffected')
    if len(sel) < 2:
        I.check(I.all([abs_le(I, adj, 1e-9)]), 'a single point has no offset')
        I.reach('single')
        return
    c = len(pf.fits)
    I.check(c >= 1 and len(pf.evals) >= 1, 'corrected points are fitted')
    last = pf.fits[-1]
    I.check(last['presentation'] == 'cumulative' and pf.evals[-1][0] == 'cumulative', 'cumulative densities are fitted')
    I.check(len(last['d']) == len(sel), 'fit uses the points in range only')
    for j, i in enumerate(sel):
        I.close(last['d'][j], lim[i], 'fit uses the points in range only', rtol=1e-9)
    prev = last['y'][0] - cum[sel[0]]
    for j, i in enumerate(sel):
        I.close(last['y'][j], cum[i] + prev, 'the fitted points carry one offset', rtol=1e-7, atol=1e-9)
    I.check(pf.evals[-1][2] == c, 'the last fit is used')
    I.close(pf.evals[-1][1], lim[sel[-1]], 'the fit is evaluated at the largest diameter', rtol=1e-9)
    I.close(cum[sel[-1]] + adj, v[c - 1], 'the fit passes through the largest bin', rtol=1e-7, atol=1e-9)
    I.check(I.any([c >= 20, abs_le(I, adj - prev, 1.001e-4)]), 'the offset has settled')
    I.check(cc.area is area and all(len(before[x]) == len(cc.binned[x]) for x in before), 'the count itself is unaffected')
    for i in range(k):
        I.close(cc.binned['n'][i], before['n'][i], 'the count itself is unaffected', rtol=1e-12, atol=1e-12)
    I.reach('offset')


def ev_cum(ev, i):
    return sum(ev[i:])


def h_off(I):
    """no correction requested, or a presentation without one"""
    lim = [2. ** (i / 2) for i in range(-1, 3)]
    n = [I.real(f'n{i}', .5, 1e3) for i in range(3)]
    area = I.real('area', 1., 1e6)
    cc = binned_count(I, lim[:-1], lim[-1], n, [2, 4, 3], area)
    pres = I.case['pres']
    pf = Pf(I, [I.real('v', -1., 1e3)] * 40)
    p = cc.getplotdata(pres, 'root-2', range=[lim[0], lim[3]], resurfacing=I.case['resurf'], showall=I.case['showall'], pf=pf)
    q = cc.getplotdata(pres, 'root-2', range=[lim[0], lim[3]], pf=pf)
    for j in range(3):
        if pres == 'cumulative':
            I.close(p['y'][j], sum_(n[j:]) / area, 'uncorrected density', rtol=1e-7)
        I.close(p['y'][j], q['y'][j], 'unaffected by the request', rtol=1e-9)
        I.close(p['err'][j], q['err'][j], 'unaffected by the request', rtol=1e-9)
    I.reach('off')


def cases(tier):
    for occ, r in (([1, 1, 1], (0, 3)), ([1, 1, 1, 1], (1, 3)), ([1, 0, 1, 1], (0, 4)), ([1, 1, 1], (2, 3)), ([1, 1, 1, 1], (0, 2))):
        for showall in (0, 1):
            for m in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 5, 8):
                yield dict(occ=occ, range=list(r), showall=showall, m=m, settle=1)
            yield dict(occ=occ, range=list(r), showall=showall, m=1)


def cases_off(tier):
    for pres in PRESENTATIONS:
        for rs in (0, None, 1):
            if pres == 'cumulative' and rs == 1:
                continue
            for s in (0, 1):
                yield dict(pres=pres, resurf=rs, showall=s)


HARNESSES = [
    Harness('offset', h_offset, cases, bounds='3..4 bins, all counts and areas; production function and fit abstracted to arbitrary values, free for the first 1..3 (thorough 8) fits, then constant (settling) or alternating (never settling)'),
    Harness('off', h_off, cases_off, bounds='three bins, all counts and areas, every presentation'),
]
ASSUMPTIONS = ['the settling tolerance is the code\'s own absolute 1e-4 per km2 with at most 20 repetitions']

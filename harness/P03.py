"""P03: bin limits are members of the named series and enclose the diameters tightly."""
from symx.check import Harness
from harness.util import *

EPS = .001


def members(I, bins, b, off):
    if b == 'pseudo-log':
        k0 = None
        for v in bins:
            v = float(v)
            m = [(e, i) for e in range(-9, 7) for i, a in enumerate(PSEUDO) if abs(v / (a * 10. ** e) - 1) < 1e-9]
            I.check(len(m) == 1, 'limit belongs to the pseudo-log series')
            k = m[0][0] * len(PSEUDO) + m[0][1]
            I.check(k0 is None or k == k0 + 1, 'consecutive pseudo-log limits')
            k0 = k
        return
    L = [I.np.log10(v) * BPD[b] + off for v in bins]
    I.check(isint(I, L[0]), 'first limit belongs to the series')
    for x, y in zip(L, L[1:]):
        I.check(abs_le(I, y - x - 1, 1e-6), 'consecutive limits')


def h_expand(I):
    b, off, n, spread = (I.case[k] for k in ('binning', 'offset', 'n', 'spread'))
    d0 = I.log('d0', I.case['lo'], I.case['hi'])
    d = [d0]
    for i in range(1, n):
        x = I.log(f'd{i}', I.case['lo'], I.case['hi'] * spread)
        I.assume(x >= d0)
        I.assume(x <= d0 * spread)
        d.append(x)
    d = d[1:] + d[:1]
    bins = I.cst.Cratercount().generate_bins(b, I.np.array(d) if I.case.get('array') else d, offset=off)
    members(I, bins, b, off)
    t = 1 + 1e-9
    for x in d:
        I.check(I.all([bins[0] <= x * t, x < bins[-1]]), 'limits enclose every diameter')
    I.check(I.any([x <= bins[1] * t for x in d]), 'no whole bin below the smallest diameter')
    top = 10 ** EPS
    I.check(I.any([x * top * t >= bins[-2] for x in d]), 'no whole bin above the largest diameter')
    I.check(len(bins) >= 2, 'at least one bin')
    I.reach('expand')


def h_range(I):
    b, off, spread = (I.case[k] for k in ('binning', 'offset', 'spread'))
    lo = I.log('lo', I.case['lo'], I.case['hi'])
    hi = I.log('hi', I.case['lo'], I.case['hi'] * spread)
    I.assume(hi >= lo * 1.006)
    I.assume(hi <= lo * spread)
    bins = I.cst.Cratercount().generate_bins(b, I.np.array([lo, hi]), offset=off, expand=False)
    members(I, bins, b, off)
    g, t = 10 ** EPS, 1 + 1e-9
    I.check(bins[0] <= lo * g * t, 'lower limit encloses the range (to the rounding margin)')
    I.check(bins[-1] * g * t >= hi, 'upper limit encloses the range (to the rounding margin)')
    if len(bins) > 1:
        I.check(bins[1] * t >= lo * g, 'lower limit is tight')
        I.check(bins[-2] <= hi / g * t, 'upper limit is tight')
    I.reach('range')


def cases(tier):
    q = tier == 'quick'
    for b in BINNINGS[:-1]:
        for off in (0., .5):
            if b == 'pseudo-log' and off:
                continue
            c = dict(binning=b, offset=off)
            pl = b == 'pseudo-log'
            yield dict(c, n=1, lo=1e-7, hi=1e4, spread=1)
            yield dict(c, n=2, lo=1e-7 if not pl else .4, hi=1e4 if not pl else 3., spread=(10 if q else 1000) if not pl else 4, array=True)
            if not off:
                yield dict(c, n=2, lo=.01, hi=.011, spread=1e5 if not pl else 300, array=True, wide=True)
            yield dict(c, n=3, lo=1e-3 if not pl else .8, hi=1e3 if not pl else 1.6, spread=3 if not pl else 2)


def cases_r(tier):
    for c in cases(tier):
        if c['n'] == 2 and not c.get('wide') or tier != 'quick':
            c.pop('n')
            yield dict(c, spread=c['spread'] * 3)


HARNESSES = [
    Harness('expand', h_expand, cases, bounds='1 diameter 1e-7..1e4 km, 2 within a factor 10 (thorough 1000), 3 within a factor 3; pseudo-log pairs up to a factor 1e5 (pseudo-log 300) apart from .01 km; pseudo-log pairs/triples around 1 km within a factor 4/2; offsets 0, half a bin'),
    Harness('range', h_range, cases_r, bounds='ranges 1e-7..1e4 km of ratio 1.006..30 (thorough 3000); pseudo-log around 1 km, ratio up to 12'),
]
ASSUMPTIONS = ['limits are compared as real numbers with relative tolerance 1e-9']

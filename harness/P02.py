"""P02: every crater in exactly one bin; cumulative counts are suffix sums."""
from symx.check import Harness
from harness.util import *


def h_bins(I):
    n, b, spread, lo, hi, off = (I.case[k] for k in ('n', 'binning', 'spread', 'lo', 'hi', 'offset'))
    d0 = I.log('d0', lo, hi)
    d = [d0]
    for i in range(1, n):
        x = I.log(f'd{i}', lo / spread, hi * spread)
        I.assume(x <= d0 * spread)
        I.assume(x >= d0)
        d.append(x)
    d = [d[i] for i in I.case['perm']]
    f = [I.real(f'f{i}', .01, 1.) for i in range(n)]
    cc = new_count(I, d, f, I.real('area', .1, 1e6))
    cc.buffered = bool(I.case.get('buffered'))
    cc.apply_binning(b, offset=off)
    B = cc.binned
    k = len(B['d_min'])
    I.check(I.all([B['d_max'][i] > B['d_min'][i] for i in range(k)]), 'bins have positive width')
    I.check(I.all([near(I, B['d_max'][i], B['d_min'][i + 1], 1e-12) for i in range(k - 1)]), 'bins adjoin')
    inside = [[I.all([B['d_min'][i] <= x, x < B['d_max'][i]]) for i in range(k)] for x in d]
    for j in range(n):
        I.check(I.count(inside[j]) == 1, f'crater {j} lies in exactly one bin')
        I.check(I.all([I.imp(inside[j][i], int(cc.reverse_indices[j]) == i + 1) for i in range(k)]), f'crater {j} is assigned to its bin')
    for i in range(k):
        m = [inside[j][i] for j in range(n)]
        I.check(B['n_event'][i] == I.count(m), f'event count of bin {i}')
        w = sum_([I.ite(c, v, 0) for c, v in zip(m, f)])
        I.close(B['n'][i], w, f'weighted count of bin {i}', rtol=0, atol=1e-6)
    for i in range(k):
        I.close(B['ncum'][i], sum_([B['n'][j] for j in range(i, k)]), 'cumulative count', rtol=0, atol=1e-6)
        I.check(B['ncum_event'][i] == sum_([B['n_event'][j] for j in range(i, k)]), 'cumulative event count')
        I.close(B['bin_width'][i], B['d_max'][i] - B['d_min'][i], 'bin width', rtol=1e-6)
        I.close(B['d_mean'][i] * B['d_mean'][i], B['d_max'][i] * B['d_min'][i], 'bin centre', rtol=1e-6)
    I.check(cc.binning == b, 'binning recorded')
    I.check(I.all([near(I, a, c, 1e-12) for a, c in zip(cc.diam, d)]), 'craters themselves untouched')
    I.reach('binned')


def h_none(I):
    n = I.case['n']
    d = [I.log(f'd{i}', 1e-7, 1e4) for i in range(n)]
    for i in range(n):
        for j in range(i):
            I.assume(I.any([d[i] < d[j], d[i] > d[j]]))
    f = [I.real(f'f{i}', .01, 1.) for i in range(n)]
    cc = new_count(I, d, f, 1.)
    cc.apply_binning('none')
    B = cc.binned
    I.check(len(B['n']) == n and len(B['d_min']) == n, 'one entry per crater')
    for i in range(n):
        I.check(I.count([I.all([near(I, B['d_min'][j], d[i], 1e-12), abs_le(I, B['n'][j] - f[i], 1e-9)]) for j in range(n)]) >= 1, f'crater {i} kept with its fraction')
    for i in range(n):
        if i < n - 1:
            I.check(B['d_min'][i] <= B['d_min'][i + 1], 'increasing')
        I.close(B['ncum'][i], sum_([B['n'][j] for j in range(i, n)]), 'cumulative', rtol=0, atol=1e-6)
        I.check(B['ncum_event'][i] == n - i, 'cumulative events')
        I.check(B['n_event'][i] == 1, 'events')
        I.check(I.all([near(I, B['d_min'][i], B['d_mean'][i], 1e-12), near(I, B['d_min'][i], B['d_max'][i], 1e-12)]), 'degenerate bin')
    I.reach('none')


def cases(tier):
    q = tier == 'quick'
    for b in BINNINGS[:-1]:
        for off in (0., .5):
            if b == 'pseudo-log' and off:
                continue
            c = dict(binning=b, offset=off)
            yield dict(c, n=1, perm=[0], lo=1e-7, hi=1e4, spread=1)
            yield dict(c, n=2, perm=[1, 0], lo=1e-3, hi=2000., spread=3 if q else 30)
            if b != 'pseudo-log' or not q:
                yield dict(c, n=3, perm=[2, 0, 1], lo=.9, hi=8., spread=1.3 if q else 3)
            else:
                yield dict(c, n=3, perm=[2, 0, 1], lo=.9, hi=2.2, spread=1.3)
            if not off:
                yield dict(c, n=2, perm=[0, 1], lo=.5, hi=2., spread=1.5, buffered=True)
            if not q:
                yield dict(c, n=4, perm=[3, 0, 2, 1], lo=.9, hi=8., spread=1.5)


HARNESSES = [
    Harness('bins', h_bins, cases, quick=dict(time=15),
            bounds='1 crater 1e-7..1e4 km; 2 craters within a factor 3 (thorough 30) from 1e-3..2000 km; 3 (thorough 4) craters within a factor 1.3 (3); any fractions; all binned styles; offsets 0 and half a bin; area-normalised and buffered counts'),
    Harness('none', h_none, lambda tier: [dict(n=k) for k in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))], bounds='1..3 (thorough 4) craters 1e-7..1e4 km, distinct diameters'),
]
ASSUMPTIONS = ['binning limits as real numbers: rounding of a limit to the nearest double is outside the model']

"""P06: a diameter range selects exactly the bins inside it."""
from symx.check import Harness
from harness.util import *


def h_select(I):
    b, k, pres = I.case['bins'], I.case['k'], I.case['pres']
    lim = series(b, I.case['start'], k + 1)
    occ = I.case['occ']
    n = [I.real(f'n{i}', .01, 1e5) if o else 0. for i, o in enumerate(occ)]
    ev = [I.int(f'ev{i}', 1, 100000) if o else 0 for i, o in enumerate(occ)]
    area = I.real('area', .01, 1e8)
    cc = binned_count(I, lim[:-1], lim[-1], n, ev, area, b)
    lo = I.log('lo', lim[0] * .9, lim[-1]) if I.case['lo'] == 'any' else 0.
    hi = I.log('hi', lim[0], lim[-1] * 1.1) if I.case['hi'] == 'any' else math.inf
    if I.case['lo'] == 'any' and I.case['hi'] == 'any':
        I.assume(hi >= lo * 1.006)
    elif I.case['hi'] == 'any':
        I.assume(hi >= lim[0] * 1.006)
    elif I.case['lo'] == 'any':
        I.assume(lo * 1.006 <= lim[-1])
    mean = [math.sqrt(x * y) for x, y in zip(lim, lim[1:])]
    sa = I.case.get('showall', 0)
    rng = [lo, hi]
    full = cc.getplotdata(pres, b)
    p = cc.getplotdata(pres, b, range=rng, showall=sa)
    I.check(I.all([near(I, rng[0], lo, 1e-12) if I.case["lo"] == "any" else rng[0] == 0, rng[1] == hi]), 'the requested range is not altered') if not I.sym else None
    ne = [i for i, o in enumerate(occ) if o]
    inside = {i: I.all([mean[i] > (0. if sa else lo), mean[i] < hi]) for i in ne}
    I.check(len(p['d']) == I.count(inside.values()), 'exactly the bins with their centre inside the range')
    for j in range(len(p['d'])):
        # the j-th point is the j-th selected bin
        ok = []
        for m, i in enumerate(ne):
            rank = I.count([inside[ne[x]] for x in range(m)]) == j
            same = I.all([near(I, p['d'][j], full['d'][m]), near(I, p['y'][j], full['y'][m]), near(I, p['err'][j], full['err'][m])])
            ok.append(I.all([inside[i], rank, same]))
        I.check(I.any(ok), 'points are those of the selected bins, in order')
    I.close(p['n'], sum_([I.ite(inside[i], n[i], 0) for i in ne]), 'number of craters shown', rtol=0, atol=1e-5)
    I.check(p['n_event'] == sum_([I.ite(inside[i], ev[i], 0) for i in ne]), 'number of events shown')
    a, z = p['bin_range']
    g = 10 ** .001
    t = 1 + 1e-6
    L = series(b, lim[0] * (lim[0] / lim[1]) ** 2, k + 5)
    if I.case['lo'] == 'zero':
        I.close(a, lim[0], 'zero stands for the smallest bin', rtol=1e-6)
    else:
        I.check(I.all([a <= lo * g * t, I.any([I.all([near(I, a, x, 1e-6), y * t >= lo * g]) for x, y in zip(L, L[1:])])]), 'bin range encloses the range below, tightly')
    if I.case['hi'] == 'inf':
        I.close(z, lim[-1], 'infinity stands for the largest bin', rtol=1e-6)
    else:
        I.check(I.all([z * g * t >= hi, I.any([I.all([near(I, z, y, 1e-6), x <= hi / g * t]) for x, y in zip(L, L[1:])])]), 'bin range encloses the range above, tightly')
    I.reach('selected')


def cases(tier):
    q = tier == 'quick'
    sets = [('root-2', .7, [1, 1, 1, 1]), ('10/decade', 2., [1, 0, 1])] + ([] if q else [('pseudo-log', .9, [1, 1, 1, 1, 1]), ('x2', .01, [0, 1, 1, 1]), ('20/decade', 50., [1, 1, 0, 1]), ('4th root-2', 1., [1, 0, 0, 1])])
    for b, s, occ in sets:
        for pres in PRESENTATIONS:
            for lo, hi in (('any', 'any'), ('zero', 'any'), ('any', 'inf'), ('zero', 'inf')):
                yield dict(bins=b, k=len(occ), start=s, occ=occ, pres=pres, lo=lo, hi=hi)
            yield dict(bins=b, k=len(occ), start=s, occ=occ, pres=pres, lo='any', hi='any', showall=1)


HARNESSES = [Harness('select', h_select, cases, bounds='3..5 bins of shipped series with symbolic counts; any range limits from below the first to above the last bin, 0 and infinity; all presentations; show-all')]

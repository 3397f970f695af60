"""P12: the age probability distribution."""
from symx.check import Harness
from harness.util import *
from harness import pdfs

CF = {'Neukum83': [5.44e-14, 6.93, 0., 8.38e-4], 'lin': [0., 1., 0., 2e-3]}
FR = [(1 - math.erf(2 ** -.5)) / 2, .5, (1 + math.erf(2 ** -.5)) / 2]


def ages(I, n):
    if I.case.get('ts') == 'sym':
        ts = [I.real('t0', 1e-3, 5.)]
        for i in range(1, n):
            x = I.real(f't{i}', 1e-3, 5.)
            I.assume(x >= ts[-1] + (.001 if i == 1 or not I.case.get('flat') else 0.))
            ts.append(x)
        return ts
    ts = [.5, 1., 2., 3., 3.5, 4.25, 5.][:n]
    return ts[:-1] + ts[-2:-1] if I.case.get('flat') else ts


def likelihoods(I, n, lo=0.):
    return [I.real(f'P{i}', lo, 1.) for i in range(n)]


def h_density(I):
    n = I.case['n']
    ts = ages(I, n)
    phi = [I.real(f'phi{i}', 1e-4, 1e2) for i in range(n)] if I.case['phi'] == 'sym' else [.3 + .2 * i for i in range(n)]
    P = likelihoods(I, n)
    m = pdfs.masses(ts, phi, P)
    S = sum_(m)
    I.assume(S >= 1e-4)
    small = I.case.get('small', 1.)         # likelihoods of large counts are tiny at every sampled age
    p, call = pdfs.make(I, ts, phi, [x * small for x in P])
    if p is None:
        return
    I.check(call[0] == 3, 'likelihood of the count')
    for a, b in zip(call[1], p.lam):
        I.check(near(I, a, b), 'likelihood for the expected numbers')
    for i in range(n):
        I.close(p.pdf[i] * S, P[i] * phi[i], 'density is likelihood times rate, normalised', rtol=1e-7, atol=1e-12)
        I.close(p.cdf[i] * S, sum_(m[:i + 1]), 'cumulative distribution', rtol=1e-7, atol=1e-12)
    I.close(p.cdf[n - 1], 1., 'cumulative distribution ends at one', rtol=1e-7)
    for i in range(1, n):
        I.check(p.cdf[i] * S >= p.cdf[i - 1] * S, 'cumulative distribution does not decrease')
    I.reach('density')


def h_percentiles(I):
    n = I.case['n']
    ts = ages(I, n)
    P = likelihoods(I, n, .001)
    phi = [1. + .5 * i for i in range(n)]
    p, call = pdfs.make(I, ts, phi, P)
    if p is None:
        return
    m = pdfs.masses(ts, phi, P)
    S = sum_(m)
    C = [sum_(m[:i + 1]) for i in range(n)]
    if I.case['f'] == 'any':
        f = I.real('f', .001, .999)
        t = p.t(f)
        fs, got = [f], [t]
    elif I.case['f'] == 'list':
        fs = [.003, .5, .997]
        got = p.t(fs)
        I.check(len(got) == 3, 'one age per fraction')
    else:
        fs = [FR[1], FR[0], FR[2]]
        got = p.median1sigma()
        I.check(len(got) == 3, 'median and two limits')
        I.check(I.all([got[1] <= got[0], got[0] <= got[2]]), 'lower <= median <= upper')
    for f, t in zip(fs, got):
        if C[0] >= f * S:
            I.close(t, ts[0], 'below the youngest sample', rtol=1e-7)
            continue
        for i in range(n - 1):
            if C[i + 1] >= f * S:
                break
        I.close((t - ts[i]) * (C[i + 1] - C[i]), (f * S - C[i]) * (ts[i + 1] - ts[i]), 'percentile inverts the cumulative distribution', rtol=1e-6, atol=1e-9)
    I.reach('percentiles')


def h_read(I):
    """densities and fractions read back at an age; the fractions themselves"""
    n = I.case['n']
    ts = ages(I, n)
    P = likelihoods(I, n, .001)
    phi = [1. + .5 * i for i in range(n)]
    p, call = pdfs.make(I, ts, phi, P)
    for k in range(4):
        g = I.cst.Craterpdf.gaussian_percentiles(p, k) if p is not None else None
        if g is not None:
            want = sorted([.5] + [.5 + s * math.erf(i / 2 ** .5) / 2 for i in range(1, k + 1) for s in (-1, 1)])
            I.check(len(g) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(g, want)), 'gaussian fractions in order')
    if p is None:
        return
    m = pdfs.masses(ts, phi, P)
    S = sum_(m)
    C = [sum_(m[:i + 1]) for i in range(n)]
    D = [a * b for a, b in zip(P, phi)]
    t = I.real('t', 0., 5.5)
    for f, v, lab in ((p.cumulative_fraction, C, 'cumulative fraction at an age'), (p.relative_probability, D, 'density at an age')):
        y = f(t)
        if t <= ts[0]:
            I.close(y * S, v[0], lab, rtol=1e-6)
        elif t >= ts[-1]:
            I.close(y * S, v[-1], lab, rtol=1e-6)
        else:
            for i in range(n - 1):
                if t <= ts[i + 1]:
                    break
            I.close(y * S, v[i] + (v[i + 1] - v[i]) * ((t - ts[i]) / (ts[i + 1] - ts[i])), lab, rtol=1e-6, atol=1e-9)
    I.reach('read')


def setup(I):
    pf = I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': [-2., -2.5]}]}, 'x')
    c = CF[I.case['cf']]
    cf = I.cst.Chronologyfn({'chronology': [{'name': 'y', 'coefficients': list(c)}]}, 'y')
    cc = pdfs.Cc()
    cc.area = I.log('area', I.case['alo'], I.case['ahi'])
    return pf, cf, cc, c


def h_whole(I):
    """real chronology and likelihood, coarse sampling"""
    pf, cf, cc, c = setup(I)
    k, n = I.case['k'], I.case['n']
    p = I.cst.Craterpdf(pf, cf, cc, [1., 4.], k=k, n_samples=n)
    ts = [float(t) for t in p.ts]
    phi = [c[1] * c[0] * math.exp(c[1] * t) + c[3] for t in ts]
    P = [I.pmf(k, x) for x in p.lam]
    m = pdfs.masses(ts, phi, P)
    S = sum_(m)
    I.assume(S >= 1e-25)
    for i in range(n):
        I.close(p.pdf[i] * S, P[i] * phi[i], 'density is likelihood times rate, normalised', rtol=1e-6, atol=1e-20)
    I.close(p.cdf[n - 1], 1., 'cumulative distribution ends at one', rtol=1e-7)
    I.close(sum_([p.pdf[i] * (ts[i] - ts[max(i - 1, 0)]) for i in range(n)]) + p.pdf[0] * (ts[1] - ts[0]), 1., 'density integrates to one', rtol=1e-6)
    I.reach('whole')


def h_forced(I):
    """no sampled age gives the count a probability above rounding"""
    pf, cf, cc, c = setup(I)
    k, n = I.case['k'], I.case['n']
    real, calls = I.gm.poisson, []

    def zero(k_, lam, cumulative=False):
        calls.append(1)
        return I.np.array([0.] * len(lam))
    I.gm.poisson = zero
    try:
        p = I.cst.Craterpdf(pf, cf, cc, [1., 4.], k=k, n_samples=n)
    finally:
        I.gm.poisson = real
    if len(calls) != 1:
        return
    ts = [float(t) for t in p.ts]
    I.close(p.cdf[n - 1], 1., 'forced distribution is normalised', rtol=1e-7)
    for i in range(1, n):
        I.check(p.cdf[i] >= p.cdf[i - 1], 'forced distribution does not decrease')
    on = [i for i in range(n) if p.pdf[i] > 0]
    I.check(len(on) == 1, 'one peak')
    i = on[0]
    I.check(I.any([p.lam[i] >= k * (1 - 1e-9), ts[i] >= ts[-1]]), 'peak at the first age expecting the count')
    I.check(I.any([i == 0, p.lam[i - 1] <= k * (1 + 1e-9)]), 'peak at the first age expecting the count')
    t = p.median1sigma()
    I.check(I.all([t[1] <= t[0], t[0] <= t[2]]), 'lower <= median <= upper')
    I.check(t[0] <= ts[i] * (1 + 1e-9) if i else True, 'median at the peak')
    I.check(I.any([i == 0, t[0] >= ts[max(i - 1, 0)] * (1 - 1e-9)]), 'median at the peak')
    I.reach('forced')


def cases_density(tier):
    for n in (2, 3, 5) if tier == 'quick' else (2, 3, 4, 5, 6, 7):
        for ts, phi in (('fix', 'sym'), ('sym', 'fix'), ('sym', 'sym')):
            for flat in (0, 1):
                if n > 2 or not flat:
                    yield dict(n=n, ts=ts, phi=phi, flat=flat)
    for small in (1e-6, 1e-10, 1e-15, 1e-20):
        yield dict(n=3, ts='fix', phi='sym', flat=0, small=small)


def cases_perc(tier):
    for n in (2, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 6, 7):
        for f in ('any', 'list', 'sigma'):
            yield dict(n=n, f=f)


def cases_whole(tier):
    for cf in CF:
        for k in (0, 1, 7, 200) if tier == 'quick' else (0, 1, 2, 7, 30, 200, 3000):
            for n in (16, 31):
                yield dict(cf=cf, k=k, n=n, alo=1e-2, ahi=1e7)


def cases_forced(tier):
    for cf in CF:
        for k in (1, 1000, 10 ** 7):
            for alo, ahi in ((1., 1e3), (1e6, 1e7)):
                yield dict(cf=cf, k=k, n=16, alo=alo, ahi=ahi)


HARNESSES = [
    Harness('density', h_density, cases_density, bounds='2..5 (thorough 7) sampled ages, all increasing ages (flat ends too), rates and likelihoods; likelihoods scaled down to 1e-20'),
    Harness('percentiles', h_percentiles, cases_perc, bounds='2..5 (thorough 7) sampled ages, all likelihoods .001..1, any fraction .001..0.999'),
    Harness('read', h_read, lambda t: [dict(n=n) for n in (2, 4)], bounds='2, 4 sampled ages, any age 0..5.5'),
    Harness('whole', h_whole, cases_whole, bounds='16 or 31 sampled ages, counts 0..200 (thorough 3000), all areas 1e-2..1e7, two chronologies; likelihood function uninterpreted'),
    Harness('forced', h_forced, cases_forced, bounds='16 sampled ages, counts 1, 1000, 1e7, all areas in two ranges'),
]
ASSUMPTIONS = ['scipy.stats.poisson.pmf is an arbitrary function into [0,1]; age samples reduced from 5000', 'where the constructor stops taking its likelihoods from gm.poisson the density/percentiles/read/forced harnesses step aside']

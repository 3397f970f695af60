"""P04: plotted densities and errors follow the definition of each presentation."""
from symx.check import Harness
from harness.util import *

R2 = 2 ** .5
LIMITS = {'root-2': [1., R2, 2., 2 * R2, 4.], 'pseudo-log': [.9, 1., 1.1, 1.2], '10/decade': [10., 10 ** 1.1, 10 ** 1.2, 10 ** 1.3],
          'x2': [.125, .25, .5, 1.]}


def count(I):
    """symbolic counts in given or symbolic bins"""
    occ = I.case['occ']
    k = len(occ)
    if I.case['bins'] == 'sym':
        u = [I.log('u0', 10 ** -.75, 10 ** .5)]      # fourth roots of the limits keep all powers whole
        for i in range(k):
            x = I.log(f'u{i + 1}', 10 ** -.75, 10 ** .75)
            I.assume(x >= u[-1] * 1.05 ** .25)
            I.assume(x <= u[-1] * 3. ** .25)
            u.append(x)
        lim = [x ** 4 for x in u]
        b = 'root-2'
    else:
        b = I.case['bins']
        lim = LIMITS[b][:k + 1]
    n = [I.real(f'n{i}', .01, 1e5) if o else 0. for i, o in enumerate(occ)]
    ev = [I.int(f'ev{i}', 1, 100000) if o else 0 for i, o in enumerate(occ)]
    area = I.real('area', .01, 1e8)
    cc = binned_count(I, lim[:-1], lim[-1], n, ev, area, b)
    return cc, lim, n, ev, area, b


def h_density(I):
    cc, lim, n, ev, area, b = count(I)
    pres = I.case['pres']
    np = I.np
    occ = I.case['occ']
    pf = None
    if I.case.get('pf'):
        s = I.real('slope', -6., -.5)
        pf = I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': [0., s]}]}, 'x')
    p = cc.getplotdata(pres, b, pf=pf)
    idx = [i for i, o in enumerate(occ) if o]
    I.check(len(p['d']) == len(idx) and len(p['y']) == len(idx) and len(p['err']) == len(idx), 'one point per non-empty bin')
    for j, i in enumerate(idx):
        lo, hi = lim[i], lim[i + 1]
        mid = np.sqrt(lo * hi)
        w = hi - lo
        e = ev[i]
        raw = None
        if pres == 'cumulative':
            d, y, e = lo, sum_(n[i:]) / area, sum_(ev[i:])
        elif pres == 'incremental':
            d, y = mid, n[i] / area
        elif pres == 'Hartmann':
            d, y = mid, n[i] / w / area * mid * (R2 - 1)
        elif pres == 'R-plot':
            d, y = mid, n[i] / w / area * mid ** 3
        else:
            d, raw = mid, n[i] / w / area
            k = s if pf else -3.
            # mean density over the bin divided by the density at the geometric centre, for a cumulative slope k
            ratio = (lo / mid) ** k - (hi / mid) ** k if pf else (mid / lo) ** 3 - (mid / hi) ** 3
            y = raw * (w / mid) * (-k) / ratio
        I.close(p['d'][j], d, 'plotted diameter', rtol=1e-6)
        I.close(p['y'][j], y, f'{pres} density', rtol=1e-5)
        se = np.sqrt(e)
        I.close(p['err'][j] * se, raw if raw is not None else y, f'{pres} error', rtol=1e-5)
    I.close(p['n'], sum_(n), 'number of craters', rtol=1e-6)
    I.check(p['n_event'] == sum_(ev), 'number of events')
    I.close(p['bin_range'][0], lim[idx[0]], 'bin range starts at the first non-empty bin', rtol=1e-6)
    I.close(p['bin_range'][1], lim[idx[-1] + 1], 'bin range ends at the last non-empty bin', rtol=1e-6)
    I.check(p['presentation'] == pres, 'presentation')
    I.reach(pres)


def h_bias(I):
    """the bias factor itself, for any slope, including zero and scalar or array arguments"""
    k = I.real('k', -8., 8.)
    beta = I.case['beta']
    got = I.mod('craterstats').bin_bias_correction(beta, I.np.array([k]))[0] if I.case['array'] else I.cst.bin_bias_correction(beta, k)
    if I.case['zero']:
        I.assume(abs_le(I, k, 5e-6))
        I.close(got, 1., 'slope zero', rtol=1e-5)
    else:
        I.assume(I.any([k >= 1e-3, k <= -1e-3]))
        L = math.log10(beta) / 2
        want = (10 ** (k * L) - 10 ** (-1 * k * L)) / (k * (beta ** .5 - beta ** -.5))
        I.close(got, want, 'bias factor', rtol=1e-5)
    I.reach('bias')


def cases(tier):
    q = tier == 'quick'
    occs = [(1, 1), (0, 1), (1, 0), (1, 0, 1)] + ([] if q else [(1,), (1, 1, 1), (0, 1, 1), (0, 1, 0)])
    for pres in PRESENTATIONS:
        for bins in ('sym', 'root-2', '10/decade') if q else ('sym', 'root-2', 'pseudo-log', '10/decade', 'x2'):
            for occ in occs:
                if pres == 'differential':
                    if bins != 'sym':
                        yield dict(pres=pres, bins=bins, occ=list(occ), pf='lin')
                        yield dict(pres=pres, bins=bins, occ=list(occ), pf=None)
                else:
                    yield dict(pres=pres, bins=bins, occ=list(occ), pf=None)


HARNESSES = [
    Harness('density', h_density, cases, bounds='2..3 bins with symbolic limits (differential: those of shipped binnings only), every occupancy pattern shown, all counts, event counts, areas; slopes -6..-0.5'),
    Harness('bias', h_bias, lambda t: [dict(beta=b, array=a, zero=z) for b in (2 ** .5, 2., 10 ** .1, 1.1) for a, z in ((True, False), (True, True), (False, False))], bounds='slopes -8..8, four bin ratios'),
]

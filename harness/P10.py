"""P10: fitted constant terms, their limits, and the values quoted for them."""
from symx.check import Harness
from harness.util import *

COEF = {'lin': [-3., -2.5], 'flat': [0., -1.5], 'quad': [-2., -3.2, .3], 'Neukum83': [-2.5339, -3.6269, 0.43662, 0.79347, 0.086468, -0.26485, -0.066382, 0.037923, 0.010596, -0.0022496, -0.00051797, 0.0000397]}


def pf_(I):
    return I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': list(COEF[I.case['pf']])}]}, 'x')


def base(I, d, pres):
    """log10 of the function with constant term zero"""
    a = [0.] + COEF[I.case['pf']][1:]
    x = I.np.log10(d)
    p = sum_(c * x ** i for i, c in enumerate(a))
    if pres == 'cumulative':
        return p
    return p + I.np.log10(-1 * sum_(i * c * x ** (i - 1) for i, c in enumerate(a) if i)) - x


def optimum(I, d, y, err, pres):
    """weighted least-squares constant term: weights are the densities (cumulative) or the errors (differential)"""
    w = y if pres == 'cumulative' else err
    r = [I.np.log10(v) - base(I, x, pres) for x, v in zip(d, y)]
    return sum_(a * b for a, b in zip(w, r)) / sum_(w)


def points(I, m):
    if I.case['d'] == 'sym':
        d = [I.log(f'd{i}', .01, 100.) for i in range(m)]
        for i in range(1, m):
            I.assume(d[i] >= d[i - 1] * 1.01)
    else:
        d = [.5, .7, 1., 1.4, 2.][:m] if I.case['d'] == 'low' else [2., 4., 16., 32.][:m]
    return d


def limits(I, a0, y, err, label):
    I.close(10 ** (a0[1] - a0[0]) * y, y - .98 * I.np.minimum(err, y), f'{label}: lower limit is that of the first density minus .98 error, which counts up to the density itself', rtol=1e-6)
    I.close(10 ** (a0[2] - a0[0]) * y, y + .98 * err, f'{label}: upper limit is that of the first density plus .98 error', rtol=1e-6)
    I.check(I.all([a0[1] <= a0[0], a0[0] <= a0[2]]), f'{label}: limits bracket the fit')


def h_fit(I):
    np = I.np
    m, pres = I.case['m'], I.case['pres']
    pf = pf_(I)
    d = points(I, m)
    y = [I.log(f'y{i}', 1e-9, 1e3) for i in range(m)]
    err = [v * (1. / k ** .5) for v, k in zip(y, (1, 4, 9, 2))] if I.case['err'] == 'cnt' else [v * I.real(f'e{i}', .01, 1.2) for i, v in enumerate(y)]
    arr = np.array
    if I.case['form'] == 'scalar':
        p = {'presentation': pres, 'd': d[0], 'y': y[0], 'err': err[0]}
    else:
        p = {'presentation': pres, 'd': arr(d), 'y': arr(y), 'err': arr(err)}
    a = list(pf.a)
    a0 = pf.fit(p)
    I.check(len(a0) == 3, 'best value and two limits')
    I.close(a0[0], optimum(I, d, y, err, pres), 'least-squares constant term', rtol=1e-7, atol=1e-7)
    limits(I, a0, y[0], err[0], 'fit')
    I.check(pf.a == a, 'the function itself is unchanged')
    if I.case['form'] != 'scalar':
        I.check(len(p['y']) == m, 'the points are unchanged')
    I.reach('fit')


def h_recover(I):
    """points on a scaled production function; scaled densities"""
    np = I.np
    m, pres = I.case['m'], I.case['pres']
    pf = pf_(I)
    d = points(I, m)
    s = I.real('s', -6., 3.)
    y = pf.evaluate(pres, np.array(d), s)
    f = I.log('f', 1e-3, 1e3)
    err = y * .5
    a0 = pf.fit({'presentation': pres, 'd': np.array(d), 'y': y, 'err': err})
    I.close(a0[0], s, 'constant term recovered', rtol=1e-6, atol=1e-6)
    a1 = pf.fit({'presentation': pres, 'd': np.array(d), 'y': y * f, 'err': err * f})
    for i in range(3):
        I.close(a1[i], a0[i] + np.log10(f), 'fit shifts with the density', rtol=1e-6, atol=1e-6)
    I.reach('recover')


class Cf:
    """stands for any chronology: an injective map"""

    def t(self, a0=None, n1=None):
        return a0 * 2. + 30.


class Cps:
    pass


def h_quoted(I):
    """numbers an overplot quotes for its fit"""
    np = I.np
    typ = I.case['type']
    pres = 'cumulative' if typ == 'c-fit' else 'differential'
    pf = pf_(I)
    occ = I.case['occ']
    k = len(occ)
    lim = [2. ** (i / 2) for i in range(-1, k)]
    n = [I.real(f'n{i}', .5, 1e4) if o else 0. for i, o in enumerate(occ)]
    ev = [i * 3 + I.case.get('ev', 2) if o else 0 for i, o in enumerate(occ)]
    area = I.real('area', 1., 1e6)
    cc = binned_count(I, lim[:-1], lim[-1], n, ev, area)
    lo, hi = I.case['range']
    cp = I.cst.Craterplot(cratercount=cc, type=typ, range=[lim[lo], lim[hi]], snap=0, binning='root-2', name='x')
    cps = Cps()
    cps.pf, cps.cf, cps.ref_diameter, cps.presentation = pf, Cf(), I.case['ref'], I.case['shown']    # however it is presented
    cp.calculate_age(cps)
    sel = [i for i in range(lo, hi) if occ[i]]
    d, y, err = [], [], []
    for i in sel:
        if typ == 'c-fit':
            d.append(lim[i])
            y.append(sum_(n[i:]) / area)
            err.append(y[-1] / sum(ev[i:]) ** .5)
        else:
            mid = (lim[i] * lim[i + 1]) ** .5
            w = lim[i + 1] - lim[i]
            raw = n[i] / w / area
            C = lambda x: sum(c * math.log10(x) ** j for j, c in enumerate(COEF[I.case['pf']]))
            slope = (C(lim[i + 1]) - C(lim[i])) / math.log10(lim[i + 1] / lim[i])
            d.append(mid)
            y.append(raw * (w / mid) * -slope / ((lim[i] / mid) ** slope - (lim[i + 1] / mid) ** slope))
            err.append(raw / ev[i] ** .5)
    want = optimum(I, d, y, err, pres)
    I.close(cp.a0[0], want, 'constant term of the shown points', rtol=1e-6, atol=1e-6)
    limits(I, cp.a0, y[0], err[0], 'quoted')
    for i in range(3):
        I.close(cp.t[i], cp.a0[i] * 2. + 30., 'age is the chronology age of the constant term', rtol=1e-7)
    r = math.log10(I.case['ref'])
    for i in range(3):
        I.close(cp.n_d[i], 10 ** (cp.a0[i] + sum(c * r ** j for j, c in enumerate(COEF[I.case['pf']]) if j)), 'N(d) is the cumulative density at the constant term', rtol=1e-6)
    I.close(cp.n, sum_(n[i] for i in sel), 'number of craters fitted', rtol=1e-7)
    I.check(cp.n_event == sum(ev[i] for i in sel), 'number of events fitted')
    I.close(cp.bin_range[0], lim[lo], 'diameter range fitted', rtol=1e-6)
    I.close(cp.bin_range[1], lim[hi], 'diameter range fitted', rtol=1e-6)
    I.reach('quoted')


def h_refuse(I):
    np = I.np
    pf = pf_(I)
    e = np.array([])
    r, msg = I.call_exit(pf.fit, {'presentation': I.case['pres'], 'd': e, 'y': e, 'err': e})
    I.check(r is None and msg is not None and 'empty' in str(msg), 'empty selection refused')


def cases_fit(tier):
    for pres in ('cumulative', 'differential'):
        for m in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for pf in ('lin', 'quad', 'Neukum83') if tier == 'quick' else COEF:
                for d in ('low', 'high') + (('sym',) if pf in ('lin', 'flat') else ()):
                    for err in ('cnt', 'any'):
                        if tier == 'quick' and m == 3 and err == 'any' and pf != 'lin' and pres == 'differential':
                            continue
                        yield dict(pres=pres, m=m, pf=pf, d=d, err=err, form='array')
                if m == 1:
                    yield dict(pres=pres, m=1, pf=pf, d='low', err='any', form='scalar')


def cases_recover(tier):
    for pres in ('cumulative', 'differential'):
        for m in (1, 2, 3):
            for pf in ('lin', 'quad', 'Neukum83'):
                yield dict(pres=pres, m=m, pf=pf, d='low' if m < 3 else 'high')


def cases_quoted(tier):
    for typ in ('c-fit', 'd-fit'):
        for occ, r in (([1, 1, 1], (0, 2)), ([1, 1, 1, 1], (1, 3)), ([1, 0, 1, 1], (0, 4)), ([1, 1, 1], (2, 3))):
            for pf in ('lin', 'Neukum83'):
                for ref in (1., .5, 20.) if tier != 'quick' else (1., 20.):
                    yield dict(type=typ, occ=occ, range=list(r), pf=pf, ref=ref, shown=('cumulative', 'differential', 'R-plot', 'Hartmann', 'sequence')[sum(r) % 5])
        yield dict(type=typ, occ=[1, 1, 1], range=[0, 2], pf='lin', ref=1., ev=1, shown='cumulative' if typ == 'd-fit' else 'differential')  # a single event in the first bin


HARNESSES = [
    Harness('fit', h_fit, cases_fit, bounds='1..3 points (thorough 4), densities 1e-9..1e3, relative errors .01..1.2, diameters symbolic (linear function) or fixed, four functions'),
    Harness('recover', h_recover, cases_recover, bounds='1..3 points on the curve, scalings 1e-3..1e3'),
    Harness('quoted', h_quoted, cases_quoted, bounds='3..4 bins, all counts .5..1e4 and areas, fixed event counts; chronology abstracted by an injective map'),
    Harness('refuse', h_refuse, lambda t: [dict(pres=p, pf='lin') for p in ('cumulative', 'differential')]),
]
ASSUMPTIONS = ['scipy.optimize.curve_fit of a model with one additive parameter returns the weighted least-squares optimum (its contract); the replay uses scipy itself']

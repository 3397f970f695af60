"""P17: the age / area uncertainty grid."""
import inspect
from symx.check import Harness
from harness.util import *


class Pf:
    """any steep production function; cumulative density depends on the constant term only"""

    def __init__(self, I):
        self.I = I

    def evaluate(self, presentation, d, a0=None):
        if not hasattr(d, '__len__'):
            return 10 ** a0 * d ** -2.
        return self.I.np.array([10 ** a0 * x ** -2. for x in d])

    def C(self, d, a0):
        return self.evaluate('cumulative', d, a0)

    def C10(self, d10, a0):
        return self.I.np.log10(self.C(10 ** d10, a0))


class Cf:
    def __init__(self, I):
        self.I = I

    def a0(self, t):
        return self.I.np.log10(t) - 3.


class Queue:
    def put(self, x):
        pass


def plotset(I):
    cps = I.cst.Craterplotset.__new__(I.cst.Craterplotset)
    cps.pf, cps.cf = Pf(I), Cf(I)
    cps.pt_size = 9.
    return cps


def expected(t, area, dmin):
    """expected number of craters of an age and area"""
    return t * 1e-3 * area * (dmin ** -2. - 1e-6)


def run(I, cps, values, width, by=False):
    """compute_age_area with sampled counts and percentiles from the harness: (result, samples drawn, distributions built) or None"""
    import numpy
    np = I.np
    drawn, built = [], []

    def draw(lam, size=None):
        if hasattr(lam, '__len__'):
            return np.array([draw(x) for x in lam])
        v = values[len(drawn)]
        drawn.append((lam, v))
        return v
    sig = inspect.signature(I.cst.Craterpdf.__init__)

    class Stub:
        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k).arguments
            self.c = dict(area=b['cc'].area, k=b.get('k'), d=b['d_range'], lam=b.get('lam'), bcc=b.get('bcc', False))
            self.w = width(len(built)) if not by else width(self.c)
            built.append((self.c, self.w))

        def median1sigma(self):
            return np.array(list(self.w))

        def t(self, f):
            m = {.5: 0}
            if hasattr(f, '__len__'):
                return np.array([self.t(x) for x in f])
            return self.w[0 if abs(f - .5) < 1e-9 else 1 if f < .5 else 2]
    real, rp = I.cst.Craterpdf, numpy.random.poisson
    I.cst.Craterpdf, numpy.random.poisson = Stub, draw
    try:
        r = cps.compute_age_area(progress_queue=Queue())
    finally:
        I.cst.Craterpdf, numpy.random.poisson = real, rp
    return r, drawn, built


def axes(I, cps, nsx, nsy):
    """expected ages and areas of the nodes"""
    np = I.np
    nlin = round(nsx * cps.xfrac_linear)
    nlog = nsx - nlin
    l0, l1 = np.log10(cps.t_min) if nlog else 0., np.log10(cps.t_crossover) if nlog else 0.
    t = [10 ** (l0 + (l1 - l0) * (i / (nlog - 1) if nlog > 1 else 0.)) for i in range(nlog)]
    t += [cps.t_crossover + (cps.t_max - cps.t_crossover) * (i + 1) / nlin for i in range(nlin)]
    y0, y1 = cps.yrange
    return t, [10 ** (y0 + (y1 - y0) * (j / (nsy - 1) if nsy > 1 else 0.)) for j in range(nsy)]


def h_grid(I):
    c = I.case
    nx, ny = c['grid']
    cps = plotset(I)
    cps.aspect_ratio = ny / nx
    cps.n_samples = min(nx, ny)
    cps.xfrac_linear = c['lin']
    cps.global_area = 1e12
    sym = c['free']
    cps.min_diameter = I.real('dmin', .05, 1.) if sym == 'dmin' else .15
    cps.t_min, cps.t_crossover, cps.t_max = c['t']
    if sym == 't':
        cps.t_min, cps.t_crossover, cps.t_max = I.log('tmin', .001, 1.), I.real('tc', 1.1, 3.5), I.real('tmax', 3.6, 4.5)
    cps.yrange = [I.real('y0', -2., 1.), I.real('y1', 1.5, 4.)] if sym == 'area' else [-1., 3.]
    n = nx * ny
    k0 = I.int('k', 20, 99) if sym == 'count' else 50
    vals = [3 + 2 * i if i else k0 for i in range(4 * n)]
    w = []

    def width(i):
        while len(w) <= i:
            j = len(w)
            if sym == 'width' and j < 3:
                a = I.real(f'w{j}a', .01, 1.)
                w.append((I.real(f'w{j}m', .5, 2.), a, a * I.real(f'w{j}f', 1., 20.)))
            else:
                w.append((1. + j, .8 + j, 1.3 + 1.5 * j))
        return w[i]
    r, drawn, built = run(I, cps, vals, width)
    t, area = axes(I, cps, nx, ny)
    zz, kk, ee, lm = (r[x] for x in ('zz', 'kk', 'ee', 'lm'))
    I.check(r['nsx'] == nx and r['nsy'] == ny, 'grid size')
    if len(drawn) != n or len(built) != n:
        if not drawn or not built:
                return          # counts or distributions made another way: the stand-ins do not apply
        I.check(False, 'one count and one distribution per node')
    used = []
    for i in range(nx):
        for j in range(ny):
            lam = expected(t[i], area[j], cps.min_diameter)
            I.close(lm[i, j], lam, 'expected number of this age and area', rtol=1e-6)
            # the draw made for this node
            hit = [m for m, (l, v) in enumerate(drawn) if m not in used and (v is kk[i, j] or (not m == 0 or sym != 'count') and bool(v == kk[i, j]))]
            if sym == 'count' and not hit:
                hit = [0]
            I.check(len(hit) >= 1, 'count of the node is one that was drawn')
            m = hit[0]
            used.append(m)
            I.close(kk[i, j], drawn[m][1], 'sampled count recorded', rtol=1e-9)
            I.close(drawn[m][0], lam, 'count drawn for the expected number of the node', rtol=1e-6)
            b = [q for q, (x, _) in enumerate(built) if x['k'] is drawn[m][1] or x['k'] is not None and bool(x['k'] == drawn[m][1])]
            I.check(len(b) >= 1, 'distribution of the sampled count')
            x, (md, lo, hi) = built[b[0]]
            if x['lam'] is None:
                I.close(x['area'], area[j], 'distribution for the area of the node', rtol=1e-6)
                I.close(x['d'][0], cps.min_diameter, 'distribution for craters from the minimum diameter', rtol=1e-9)
            I.check(not x['bcc'], 'ordinary Poisson distribution')
            I.close((zz[i, j] + 1.) ** 2 * lo, hi, 'relative one-sigma width', rtol=1e-6)
            I.close(ee[i, j] * t[i], md, 'recovered over true age', rtol=1e-6)
    I.reach('grid')


def h_large(I):
    """expected numbers too large to draw from: the count is the expected number"""
    cps = plotset(I)
    cps.aspect_ratio, cps.n_samples, cps.xfrac_linear, cps.global_area = 1., 2, .5, 1e12
    cps.t_min, cps.t_crossover, cps.t_max = .1, 3., 4.
    cps.min_diameter = dmin = I.real('dmin', .1, .5)
    cps.yrange = [-3., 9.]
    r, drawn, built = run(I, cps, [5, 7, 11, 13, 17, 19, 23], lambda i: (1. + i, .5 + i, 2. + i))
    if not drawn or not built:
        return
    t, area = axes(I, cps, 2, 2)
    for i in range(2):
        for j in range(2):
            lam = expected(t[i], area[j], dmin)
            I.close(r['lm'][i, j], lam, 'expected number', rtol=1e-6)
            if j:
                I.close(r['kk'][i, j], lam, 'large counts are the expected number', rtol=1e-2)
    I.reach('large')


def h_repeat(I):
    """counts that coincide, zero included, do not share their distribution between areas"""
    cps = plotset(I)
    nx, ny = I.case['grid']
    cps.aspect_ratio, cps.n_samples, cps.xfrac_linear, cps.global_area = ny / nx, min(nx, ny), .5, 1e12
    cps.t_min, cps.t_crossover, cps.t_max = T
    cps.min_diameter = .15
    cps.yrange = [-1., 3.]
    vals = [I.int(f'k{i}', 0, 2) if i in I.case['at'] else i % 3 for i in range(nx * ny)]
    other = []

    def width(x):
        if x['lam'] is not None or x['k'] is None:
            other.append(1)
            return 1., .5, 2.
        a = 1. + x['k'] * .5 + x['area'] * .01
        return a, .5, a + 2. + x['area'] * .1
    r, drawn, built = run(I, cps, vals + [1] * 50, width, True)
    if not drawn or not built or other:
        return
    t, area = axes(I, cps, nx, ny)
    zz, kk, ee, lm = (r[x] for x in ('zz', 'kk', 'ee', 'lm'))
    for i in range(nx):
        for j in range(ny):
            k = kk[i, j]
            a = 1. + k * .5 + area[j] * .01
            I.close(ee[i, j] * t[i], a, 'recovered age of the count and area of the node', rtol=1e-6)
            I.close((zz[i, j] + 1.) ** 2 * .5, a + 2. + area[j] * .1, 'width of the count and area of the node', rtol=1e-6)
    I.reach('repeat')


def h_nan(I):
    """undefined widths are 0, undefined ratios 1"""
    import numpy
    cps = plotset(I)
    cps.aspect_ratio, cps.n_samples, cps.xfrac_linear, cps.global_area = 1., 2, .5, 1e12
    cps.t_min, cps.t_crossover, cps.t_max = .1, 3., 4.
    cps.min_diameter = .1
    cps.yrange = [1., 2.]
    m = I.real('m', .1, 4.)
    r, drawn, built = run(I, cps, [5, 7, 11, 13, 17], lambda i: (numpy.nan,) * 3 if i == I.case['at'] else (m, .5, 2.))
    if not drawn or not built:
        return
    t, area = axes(I, cps, 2, 2)
    n = 0
    for i in range(2):
        for j in range(2):
            b = [q for q, (x, _) in enumerate(built) if x['k'] == r['kk'][i, j]]
            if b and b[0] == I.case['at']:
                n += 1
                I.close(r['zz'][i, j] + 1., 1., 'undefined width is 0', rtol=1e-9)
                I.close(r['ee'][i, j], 1., 'undefined ratio is 1', rtol=1e-9)
            else:
                I.close(r['zz'][i, j], 1., 'defined width', rtol=1e-6)
                I.close(r['ee'][i, j] * t[i], m, 'defined ratio', rtol=1e-6)
    I.check(n == 1, 'every node present')
    I.reach('nan')


def h_params(I):
    """plot shape and age limits"""
    np = I.np
    cps = plotset(I)
    w, h = I.case['dims']
    if h is None:
        cps.print_dimensions = w
        ratio = 1.
    else:
        cps.print_dimensions = w + 'x' + h
        ratio = float(h) / float(w)
    lo, hi = I.case['range']
    a = 0. if not lo[0] else I.real('a', *lo) if lo[0] >= 1 else I.log('a', *lo)
    b = I.real('b', *hi)
    cps.xrange, cps.yrange = ([b, a] if I.case['rev'] else [a, b]), [-2., 3.]
    real = I.gm.ticks
    I.gm.ticks = lambda x, n, max_minor=None: (np.array(list(x)), 2) if max_minor else np.array(list(x))
    try:
        cps.calculate_time_axis_params()
    finally:
        I.gm.ticks = real
    if b < a:
        a, b = b, a
    I.close(cps.aspect_ratio, ratio, 'plot shape', rtol=1e-9)
    tmax = 3. if b <= 3. else 4.5 if b >= 4.5 else b
    I.close(cps.t_max, tmax, 'oldest age within 3 to 4.5 Ga', rtol=1e-9)
    t0 = a if a <= tmax - .1 else tmax - .1
    if t0 >= 1 or (not is_pos(a)):
        I.check(not cps.crossover, 'linear axis only')
        I.close(cps.t_min + 1., t0 + 1., 'youngest age', rtol=1e-9)
        I.close(cps.t_crossover + 1., t0 + 1., 'linear axis from the youngest age', rtol=1e-9)
        I.close(cps.xfrac_linear, 1., 'linear axis only', rtol=1e-9)
    else:
        I.check(cps.crossover, 'split axis')
        I.check(I.all([cps.t_min <= t0 * (1 + 1e-9), cps.t_min * 10 >= t0 * (1 - 1e-9)]), 'youngest age rounded down to a decade')
        I.check(isint(I, np.log10(cps.t_min)), 'youngest age rounded down to a decade')
        I.close(cps.t_crossover, 3., 'axis splits at 3 Ga', rtol=1e-9)
        lin, log = (tmax - 3.) / .7, math.log10(3.) - np.log10(cps.t_min)
        I.close(cps.xfrac_linear * (lin + log), lin, 'linear part', rtol=1e-6, atol=1e-9)
    I.reach('params')


def is_pos(a):
    return not (isinstance(a, float) and a == 0.)


T = (.1, 3., 4.4)


def cases(t):
    c = []
    for g in ([(2, 2), (3, 2), (2, 4)] if t == 'quick' else [(2, 2), (3, 2), (2, 4), (4, 4), (6, 3)]):
        for f in ('dmin', 't', 'area', 'count', 'width'):
            c.append(dict(grid=g, lin=.5, free=f, t=T))
    c += [dict(grid=(3, 3), lin=x, free=f, t=T) for x in (0., .3, 1.) for f in ('t', 'area')]
    c += [dict(grid=(3, 2), lin=1., free='area', t=(0., 0., 4.))]
    return c


def cases_repeat(t):
    c = []
    for g in [(2, 2), (3, 2)] if t == 'quick' else [(2, 2), (3, 2), (2, 3), (3, 4)]:
        n = g[0] * g[1]
        for a in range(0, n, 2):
            c.append(dict(grid=g, at=[(a + i) % n for i in range(4)]))
    return c


def cases_params(t):
    c = []
    for d in (('10', '10'), ('7.5', '15'), ('12', '4'), ('2', None)):
        for r in (((1e-3, .999), (2., 5.)), ((1., 3.5), (2., 5.)), ((0., 0.), (2., 5.)), ((3., 4.5), (4.5, 6.))):
            for rev in ((0, 1) if d[0] == '10' else (0,)):
                c.append(dict(dims=d, range=r, rev=rev))
    return c


HARNESSES = [
    Harness('grid', h_grid, cases, bounds='grids up to 2 x 4 (thorough 4 x 4, 6 x 3); one of: minimum diameter, age limits, area limits, a sampled count, three percentile triples free at a time'),
    Harness('repeat', h_repeat, cases_repeat, bounds='grids 2 x 2 and 3 x 2 (thorough 3 x 4), four sampled counts 0..2 free at a time'),
    Harness('large', h_large, lambda t: [dict()], bounds='areas with expected numbers above 2e5'),
    Harness('nan', h_nan, lambda t: [dict(at=i) for i in range(4)], bounds='one undefined node among four'),
    Harness('params', h_params, cases_params, bounds='age limits 0 or 1e-3..4.5 and 2..6 Ga in either order; four plot shapes'),
]

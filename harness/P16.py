"""P16: probabilities of the order of two surfaces."""
from symx.check import Harness
from harness.util import *
from harness import pdfs


def grid(I, n):
    if I.case.get('ts') == 'sym':
        ts = [I.real('t0', 1e-3, 2.)]
        for i in range(1, n):
            x = I.real(f't{i}', 1e-3, 5.)
            I.assume(x >= ts[-1] + .001)
            ts.append(x)
        return ts
    return [.5, 1., 2., 3., 3.5, 4.25, 5.][:n]


def dist(I, name, ts, occ=None):
    n = len(ts)
    P = [I.real(f'{name}{i}', .001, 1.) if occ is None or occ[i] else 0. for i in range(n)]
    phi = [1. + .5 * i for i in range(n)]
    p, call = pdfs.make(I, ts, phi, P)
    return p, pdfs.masses(ts, phi, P)


def h_pair(I):
    n = I.case['n']
    ts = grid(I, n)
    p, m = dist(I, 'P', ts, I.case.get('a'))
    q, l = dist(I, 'Q', ts, I.case.get('b'))
    if p is None or q is None:
        return
    S, T = sum_(m), sum_(l)
    a, b = p.calculate_sequence_probability(q), q.calculate_sequence_probability(p)
    I.check(I.all([a >= -1e-9, a <= 1 + 1e-9, b >= -1e-9, b <= 1 + 1e-9]), 'probabilities between 0 and 1')
    I.close(a + b, 1., 'opposite orders are complementary', rtol=1e-6)
    want = sum_(m[i] * l[j] * (1. if j < i else .5) for i in range(n) for j in range(i + 1))
    I.close(a * (S * T), want, 'probability of being older', rtol=1e-6, atol=1e-9)
    I.reach('pair')


def h_self(I):
    n = I.case['n']
    ts = grid(I, n)
    p, m = dist(I, 'P', ts)
    if p is None:
        return
    I.close(p.calculate_sequence_probability(p), .5, 'same distribution', rtol=1e-6)
    I.reach('self')


def h_disjoint(I):
    n, c = I.case['n'], I.case['cut']
    ts = grid(I, n)
    p, m = dist(I, 'P', ts, [i >= c for i in range(n)])
    q, l = dist(I, 'Q', ts, [i < c for i in range(n)])
    if p is None or q is None:
        return
    I.close(p.calculate_sequence_probability(q), 1., 'entirely older', rtol=1e-6)
    I.close(q.calculate_sequence_probability(p) + 1., 1., 'entirely younger', rtol=1e-6)
    I.reach('disjoint')


def h_ratio(I):
    n = I.case['n']
    ts = grid(I, n)
    p, m = dist(I, 'P', ts)
    if p is None:
        return
    t = I.real('t', 0., 6.)
    md = p.t(.5)
    r = p.calculate_instantaneous_probability_ratio(t)
    I.close(r * p.relative_probability(md), p.relative_probability(t), 'ratio to the density at the median', rtol=1e-6, atol=1e-9)
    I.close(p.calculate_instantaneous_probability_ratio(md), 1., 'ratio of the median to itself', rtol=1e-6)
    I.reach('ratio')


class Plot:
    """age measurement with a given distribution"""

    def __init__(self, I, name, type, hide, pdf):
        self.name, self.type, self.hide, self._pdf = name, type, hide, pdf
        self.cratercount = pdfs.Cc()
        self.range = [1., 2.]
        self.source = name + '.diam'
        self.calculated = 0

    def calculate_age(self, cps):
        self.calculated += 1
        self.pdf = self._pdf
        self.t = [1., .5, 2.]
        self.a0 = [-3., -3.1, -2.9]


class Dist:
    """a distribution whose order probabilities are the given ones"""

    def __init__(self, I, i, P, t):
        self.I, self.i, self.P, self.tm = I, i, P, t
        self.k, self.lam = 3, I.np.array([1., 2.])
        self.pdf, self.dt, self.ts = I.np.array([1., 1.]), I.np.array([1., 1.]), I.np.array([1., 2.])
        self.cdf = I.np.array([.5, 1.])

    def t(self, f):
        return self.tm

    def relative_probability(self, t):
        return .5

    def calculate_sequence_probability(self, o):
        return self.P[self.i, o.i]


def h_table(I):
    """every pair of the plotted Poisson evaluations, rows and columns in plot order"""
    kinds = I.case['kinds']
    use = [i for i, (ty, hide) in enumerate(kinds) if ty in ('poisson', 'b-poisson') and not hide]
    P, t = {}, {}
    for i in range(len(kinds)):
        t[i] = I.real('t', .1, 4.) if I.case['free'] == i else .5 + i
        for j in range(i):
            P[j, i] = (I.real('p', .001, .999) if not I.case.get('small') else I.real('p', 1e-5, 1e-2)) if tuple(I.case['free'] if isinstance(I.case['free'], (list, tuple)) else ()) == (j, i) else (.23 * (i + 1) + .31 * j) % 1.
            P[i, j] = 1. - P[j, i]
        P[i, i] = .5
    d = [Dist(I, i, P, t[i]) for i in range(len(kinds))]
    cp = [Plot(I, f'n{i}', ty, hide, d[i]) for i, (ty, hide) in enumerate(kinds)]
    cps = I.cst.Craterplotset.__new__(I.cst.Craterplotset)
    cps.craterplot = cp
    cps.pf, cps.cf = pdfs.Pf(I.np), pdfs.Cf(I.np, [1., 2.], [1., 1.])
    built = []

    def craterpdf(*a, **k):
        built.append(k)
        return Dist(I, 0, P, 1.)
    real = I.cst.Craterpdf
    I.cst.Craterpdf = craterpdf
    I.capture_writes()
    out = I.tmp + '/seq.csv'
    try:
        cps.create_sequence_table(out)
    finally:
        I.cst.Craterpdf = real
    if len(use) < 2:
        I.check(not I.exists(out), 'nothing to compare')
        I.reach('none')
        return
    lines = [l.split(',') for l in I.readback(out).split('\n')]
    h = [i for i, l in enumerate(lines) if [str(x) if not I.sym else x for x in l[1:len(use) + 1]] == [f'n{i}' for i in use] and l[0] == ''][0]
    body = lines[h + 1:h + 1 + len(use)]
    for a, i in enumerate(use):
        I.check(body[a][0] == f'n{i}', 'a row per measurement')
        for b, j in enumerate(use):
            x = body[a][b + 1] if b + 1 < len(body[a]) else ''
            if i != j:
                I.close(I.tonum(x), P[j, i], 'probability that the column is older than the row', rtol=.0501 if I.sym else .501)
    md = [l for l in lines if 't_median' in str(l[0]) and 'mean' not in str(l[0])]
    if md:
        for a, i in enumerate(use):
            I.close(I.tonum(md[0][a + 1]), t[i], 'median ages', rtol=.00501 if I.sym else .0501)
    I.reach('table')


class Lin(pdfs.Cf):
    """chronology with an easily inverted density"""

    def N1(self, t):
        return 1. + 2. * t


def h_mean(I):
    """the distributions moved to the mean age: probability of a more distant configuration"""
    c = I.case
    np, n, m = I.np, c['n'], c['m']
    times = [.5, 1., 3.5][:n]
    times[0] = I.real('t0', .1, 4.)
    tm = sum(times) / float(n)
    dt = [.5, 1., 2., 1.5][:m]
    f = lambda nm, on: I.real(nm, .1, 2.) if on else round(.2 + .37 * ((len(nm) + ord(nm[-1]) + 3 * ord(nm[1])) % 4), 3)
    q = [[f(f'q{i}_{j}', i * m + j in c['free']) for j in range(m)] for i in range(n)]
    r = [I.real(f'r{i}', .1, 2.) if i == c['obs'] else .9 - .2 * i for i in range(n)]
    P = {(i, j): .25 if i < j else .75 for i in range(n) for j in range(n)}
    d = []
    for i in range(n):
        e = Dist(I, i, P, times[i])
        e.k, e.lam = 3 + i, np.array([1. + i, 2., 5.])
        e.pdf = e.dt = e.ts = None
        d.append(e)
    cp = [Plot(I, f'n{i}', 'poisson', 0, d[i]) for i in range(n)]
    for i, e in enumerate(cp):
        e.range = [1. + i, 9.]
        e.cratercount.k = i
    cps = I.cst.Craterplotset.__new__(I.cst.Craterplotset)
    cps.craterplot, cps.pf, cps.cf = cp, pdfs.Pf(np), Lin(np, [1., 2.], [1., 1.])
    built = []

    class Moved(Dist):
        def relative_probability(self, t):
            I.close(t, times[self.i], 'observed age')
            return r[self.i]

    def craterpdf(pf, cf, cc, d_range, k=None, lam=None, bcc=False, n_samples=5000):
        i = next(x for x in range(n) if cp[x].cratercount is cc)
        I.check(pf is cps.pf and cf is cps.cf and list(d_range) == cp[i].range, 'same functions, count and range')
        I.check(k is None or k == d[i].k, 'same number of craters')
        I.check(lam is not None and len(lam) == 3, 'expected numbers given')
        for x in range(3):
            I.close(lam[x] * cps.cf.N1(tm), d[i].lam[x] * cps.cf.N1(times[i]), 'expected numbers as if formed at the mean age', rtol=1e-6)
        e = Moved(I, i, P, tm)
        e.pdf, e.dt, e.ts = np.array(list(q[i])), np.array(dt), np.array([1., 2., 3., 4.][:m])
        built.append(i)
        return e
    real = I.cst.Craterpdf
    I.cst.Craterpdf = craterpdf
    I.capture_writes()
    I.opaque_numbers()
    out = I.tmp + '/seq.csv'
    prod = [1.] * m
    for i in range(n):
        prod = [a * b for a, b in zip(prod, q[i])]
    obs = 1.
    for v in r:
        obs = obs * v
    for v in prod:
        I.assume(I.any([v - obs > 1e-3, obs - v > 1e-3]))
    try:
        cps.create_sequence_table(out)
    finally:
        I.cst.Craterpdf = real
    I.check(sorted(built) == list(range(n)), 'one moved distribution each')
    lines = [l.split(',') for l in I.readback(out).split('\n')]
    g = [l for l in lines if 'mean(t_median)' in str(l[0])]
    I.check(len(g) == 1, 'mean of the median ages')
    I.close(I.tonum(g[0][1]), tm, 'mean of the median ages', rtol=1e-3 if I.sym else 1e-2)
    i = [k for k, l in enumerate(lines) if 'distant time configuration' in str(l[0])]
    I.check(len(i) == 1, 'second calculation')
    v = I.tonum(lines[i[0] + 1][1])
    tot = sum(a * b for a, b in zip(prod, dt))
    worse = sum(I.ite(a < obs, a, 0.) * b for a, b in zip(prod, dt))
    I.check(abs_le(I, v * tot - worse, 2e-5 * tot), 'share of the combined distribution below the observed density')
    I.reach('mean')


def cases_pair(t):
    c = [dict(n=n) for n in ((2, 3, 4) if t == 'quick' else (2, 3, 4, 5))]
    c += [dict(n=3, ts='sym'), dict(n=5, a=[0, 1, 1, 0, 1], b=[1, 0, 1, 1, 0]), dict(n=5, a=[1, 0, 0, 0, 1], b=[0, 0, 1, 0, 0])]
    return c


KINDS = [[('poisson', 0), ('poisson', 0)], [('b-poisson', 0), ('poisson', 0), ('poisson', 0)], [('data', 0), ('poisson', 0), ('c-fit', 0), ('poisson', 1), ('poisson', 0)],
         [('poisson', 0), ('d-fit', 0)]]

HARNESSES = [
    Harness('pair', h_pair, cases_pair, bounds='all pairs of normalised distributions on a common grid of 2..4 (thorough 5) ages, and with empty samples on 5'),
    Harness('self', h_self, lambda t: [dict(n=n) for n in (2, 3, 5)] + [dict(n=3, ts='sym')], bounds='any distribution on 2..5 ages'),
    Harness('disjoint', h_disjoint, lambda t: [dict(n=n, cut=c) for n, c in ((2, 1), (4, 1), (4, 2), (5, 4))], bounds='any distributions separated at one sample'),
    Harness('ratio', h_ratio, lambda t: [dict(n=n) for n in ((2, 3) if t == 'quick' else (2, 3, 4))], bounds='any distribution on 2..3 (thorough 4) ages, any age'),
    Harness('table', h_table, lambda t: [dict(kinds=k, free=f) for k, fs in zip(KINDS, ([(0, 1), 1], [(0, 1), (0, 2), (1, 2), 0], [(1, 4), 4], [0])) for f in fs] + [dict(kinds=KINDS[0], free=(0, 1), small=1)], bounds='2 to 5 plots, hidden and unsuitable ones among them; one probability (any pair) .001 to .999 (one pair 1e-5 to 1e-2) or one median age free at a time'),
    Harness('mean', h_mean, lambda t: [dict(n=2, m=3, free=[], obs=0), dict(n=2, m=3, free=[1, 3], obs=1), dict(n=3, m=2, free=[0], obs=2), dict(n=2, m=2, free=[0, 3], obs=0), dict(n=3, m=4, free=[5], obs=1)], bounds='2 or 3 estimates moved to a common age, 2..4 samples each, up to two densities, one observed density and one age free'),
]

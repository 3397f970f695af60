"""P11: the crater number and the expected number behind a Poisson age."""
import contextlib
import inspect
from symx.check import Harness
from harness.util import *

PF = {'lin': [-2., -2.5], 'quad': [-2., -3.2, .3], 'Neukum83': [-3.0876, -3.557528, 0.781027, 1.021521, -0.156012, -0.444058, 0.019977, 0.086850, -0.005874, -0.006809, 8.25e-4, 5.54e-5]}
CF = {'Neukum83': [5.44e-14, 6.93, 0., 8.38e-4], 'lin': [0., 1., 0., 2e-3]}
M = 16


def functions(I):
    pd = {'name': 'x', 'coefficients': list(PF[I.case['pf']])}
    if I.case.get('pfrange'):
        pd['range'] = list(I.case['pfrange'])
    pf = I.cst.Productionfn({'production': [pd]}, 'x')
    cf = I.cst.Chronologyfn({'chronology': [{'name': 'y', 'coefficients': list(CF[I.case.get('cf', 'Neukum83')])}]}, 'y')
    return pf, cf


def n1(I, t):
    p = CF[I.case.get('cf', 'Neukum83')]
    return p[0] * (math.exp(p[1] * t) - 1.) + p[3] * t


def C0(I, d):
    """cumulative with constant term zero"""
    x = I.np.log10(d)
    return 10 ** sum_(c * x ** i for i, c in enumerate(PF[I.case['pf']]) if i)


@contextlib.contextmanager
def coarse(I, m=M):
    """fewer samples of the distribution, where the class offers the number of samples"""
    I.flat_likelihood()
    real = I.cst.Craterpdf
    if 'n_samples' not in inspect.signature(real.__init__).parameters:
        yield real
        return

    def mk(*a, **k):
        k.setdefault('n_samples', m)
        return real(*a, **k)
    I.cst.Craterpdf = mk
    try:
        yield mk
    finally:
        I.cst.Craterpdf = real


def expected(I, pdf, per_unit, label):
    """lam of every sampled age below the end of the table is the expectation for density N1(age)"""
    seen = 0
    for i in range(len(pdf.lam)):
        t = float(pdf.ts[i])
        if 1e-7 < t < 4.99:
            I.close(pdf.lam[i], per_unit * n1(I, t), f'{label}: expected number', rtol=5e-3)
            seen += 1
    I.check(seen >= 3, 'ages are sampled')


def h_count(I):
    n = I.case['n']
    pf, cf = functions(I)
    lo, hi = I.log('lo', 1e-2, 1e2), I.log('hi', 1e-2, 1e3)
    I.assume(hi >= lo * 1.01)
    d = [I.log(f'd{i}', 1e-3, 2e3) for i in range(n)]
    f = [I.real(f'f{i}', .01, 1.) for i in range(n)]
    area = I.log('area', 1e-2, 1e8)
    cc = new_count(I, d, f, area)
    if I.case.get('binned'):
        cc.apply_binning(I.case['binned'])
    with coarse(I) as Pdf:
        pdf = Pdf(pf, cf, cc, I.np.array([lo, hi]))
    I.check(pdf.k == I.count([I.all([lo <= x, x < hi]) for x in d]), 'number of craters in the half-open range')
    if I.case['pf'] == 'lin':
        expected(I, pdf, (C0(I, lo) - C0(I, hi)) * area, 'count')
    I.reach('count')


def h_binned(I):
    pf, cf = functions(I)
    lim = [2. ** (i / 2) for i in range(-2, 3)]
    ev = [2, 0, 3, 5]
    n = [1.5, 0., 2.25, 4.5]
    area = I.log('area', 1e-2, 1e8)
    cc = binned_count(I, lim[:-1], lim[-1], n, ev, area)
    lo, hi = I.log('lo', .1, 10.), I.log('hi', .1, 10.)
    I.assume(hi >= lo * 1.01)
    with coarse(I) as Pdf:
        pdf = Pdf(pf, cf, cc, I.np.array([lo, hi]))
    inside = [I.all([lo <= a, b <= hi]) for a, b in zip(lim, lim[1:])]
    I.check(pdf.k == sum_([I.ite(c, e, 0) for c, e in zip(inside, ev)]), 'events of the bins wholly inside the range')
    expected(I, pdf, (C0(I, lo) - C0(I, hi)) * area, 'binned')
    I.reach('binned')


def integral(I, g, lo, hi):
    """integral of g(d) * differential (constant term zero) over the range: fine Simpson rule in log diameter"""
    a = PF[I.case['pf']]
    n = 4000
    s = 0.
    for i in range(n + 1):
        x = math.log10(lo) + (math.log10(hi) - math.log10(lo)) * i / n
        d = 10 ** x
        C = 10 ** sum(c * x ** j for j, c in enumerate(a) if j)
        F = -C * sum(j * c * x ** (j - 1) for j, c in enumerate(a) if j) / d
        s += (1 if i in (0, n) else 4 if i % 2 else 2) * g(d) * F * d
    return s * math.log(hi / lo) / n / 3


def h_lambda(I):
    """plain and buffered expectation over a fixed range"""
    pf, cf = functions(I)
    lo, hi = I.case['range']
    area = I.log('area', 1e-2, 1e8)
    cc = new_count(I, [lo * 1.1], [1.], area)
    np = I.np
    with coarse(I) as Pdf:
        if not I.case['buffered']:
            pdf = Pdf(pf, cf, cc, np.array([lo, hi]))
            expected(I, pdf, (C0(I, lo) - C0(I, hi)) * area, 'plain')
            I.check(pdf.k == 1, 'count')
        else:
            r, msg = I.call_exit(Pdf, pf, cf, cc, np.array([lo, hi]), bcc=True)
            I.check(r is None and msg is not None, 'buffered age without perimeter refused')
            cc.perimeter = I.log('perimeter', 1e-1, 1e5)
            pdf = Pdf(pf, cf, cc, np.array([lo, hi]), bcc=True)
            i0 = integral(I, lambda d: 1., lo, hi)
            i1 = integral(I, lambda d: d / 2, lo, hi)
            i2 = integral(I, lambda d: math.pi * d * d / 4, lo, hi)
            expected(I, pdf, area * i0 + cc.perimeter * i1 + i2, 'buffered')
        q = Pdf(pf, cf, cc, np.array([lo, hi]), k=7)
        I.check(q.k == 7, 'count given by the caller is used')
    I.reach('lambda')


class Cps:
    pass


def h_age(I):
    """an overplot's Poisson age"""
    pf, cf = functions(I)
    np = I.np
    lo, hi = I.case['range']
    r = I.case['pfrange'] or [1e-4, 2e3]
    d = [.2, .6, 1.5, 1.6, 6., 40.]
    area = I.log('area', 1e-2, 1e6)
    cc = new_count(I, d, [1., .5, 1., .25, 1., 1.], area)
    cc.perimeter = 20.
    cp = I.cst.Craterplot(cratercount=cc, type=I.case['type'], range=[lo, hi], snap=0, binning='root-2', name='x')
    given = list(cp.range)
    cps = Cps()
    cps.pf, cps.cf, cps.ref_diameter = pf, cf, I.case.get('ref', 1.)
    # exact percentiles belong to the distribution itself; here two fixed distributions stand for it
    made = []

    class Pdf:
        def __init__(self, pf_, cf_, cc_, d_range, k=None, lam=None, bcc=False, **kw):
            made.append((pf_, cf_, cc_, d_range, k, lam, bcc))
            self.real = I.pdf_real(pf_, cf_, cc_, d_range, k=k, lam=lam, bcc=bcc, n_samples=M)
            self.k = self.real.k

        def median1sigma(self):
            return np.array([2.5, 1.25, 3.75])

    I.pdf_real, I.cst.Craterpdf = I.cst.Craterpdf, Pdf
    try:
        cp.calculate_age(cps)
    finally:
        I.cst.Craterpdf = I.pdf_real
    I.check(len(made) == 1, 'one distribution')
    q = made[0]
    I.check(q[0] is pf and q[1] is cf and q[2] is cc, 'functions and data of this plot')
    I.check(bool(q[6]) == (I.case['type'] == 'b-poisson'), 'buffered exactly for b-poisson')
    clo, chi = min(max(lo, r[0]), r[1]), min(max(hi, r[0]), r[1])
    I.close(q[3][0], clo, 'range clipped to the validity range', rtol=1e-6)
    I.close(q[3][1], chi, 'range clipped to the validity range', rtol=1e-6)
    k = sum(clo <= x < chi for x in d)
    I.check(cp.pdf.k == k and cp.n == k and cp.n_event == k, 'crater number')
    if I.case['type'] == 'poisson':
        expected(I, cp.pdf.real, (C0(I, clo) - C0(I, chi)) * area, 'age')
    for i, t in enumerate((2.5, 1.25, 3.75)):
        I.close(cp.t[i], t, 'ages are those of the distribution', rtol=1e-9)
        I.close(cp.a0[i], math.log10(n1(I, t)), 'constant terms are those of the ages', rtol=1e-6)
    x = math.log10(cps.ref_diameter)
    for i, t in enumerate((2.5, 1.25, 3.75)):
        I.close(cp.n_d[i], n1(I, t) * 10 ** sum(c * x ** j for j, c in enumerate(PF[I.case['pf']]) if j), 'N(d) is the cumulative density at the age', rtol=1e-6)
    I.check(list(cp.range) == given, 'range of the plot unchanged')
    I.reach('age')


def cases_count(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        yield dict(n=n, pf='lin')
    yield dict(n=2, pf='quad')


def cases_lambda(tier):
    for pf in PF:
        for r in ((.5, 8.), (.05, 60.), (1., 1.2)) if tier == 'quick' else ((.5, 8.), (.05, 60.), (1., 1.2), (.016, 300.), (10., 200.), (.02, .03)):
            for b in (0, 1):
                for cf in CF:
                    yield dict(pf=pf, range=list(r), buffered=b, cf=cf)


def cases_age(tier):
    for t in ('poisson', 'b-poisson'):
        for pf in ('lin', 'Neukum83'):
            for r in ((0., math.inf), (.5, math.inf), (1., 5.), (0., 1.6)):
                for pr in (None, [.5, 4.]):
                    yield dict(type=t, pf=pf, range=list(r), pfrange=pr, ref=1. if pf == 'lin' else 10.)


HARNESSES = [
    Harness('count', h_count, cases_count, bounds='1..3 (thorough 4) craters 1e-3..2e3 km, any range 1e-2..1e3 km, any fractions and area'),
    Harness('binned', h_binned, lambda t: [dict(pf='lin')], bounds='four given bins with fixed counts, any range and area'),
    Harness('lambda', h_lambda, cases_lambda, bounds='fixed ranges, three functions, two chronologies; all areas 1e-2..1e8 and perimeters .1..1e5'),
    Harness('age', h_age, cases_age, bounds='six craters, fixed ranges with 0 and infinity, validity ranges none or .5..4 km; all areas'),
]
ASSUMPTIONS = ['ages sampled at 16 instead of 5000 points (the number of samples is a parameter of the class)']

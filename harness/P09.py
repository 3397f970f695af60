"""P09: chronology curve, rate and inverse."""
import os
from symx.check import Harness
from harness.util import *
from harness.P07 import shipped

SRC = os.path.join(os.environ.get('SYMX_SRC', '/repo/src'), 'craterstats/config/functions.txt')
OBRIEN = "Vesta, O'Brien et al. (2014)"
STEP = 5. / 999


def n1(p, t):
    return p[0] * (math.exp(p[1] * t) - 1) + p[3] * t


def h_curve(I):
    """any coefficients, any age"""
    np = I.np
    k = I.case['sym']
    p = [I.log('p0', 1e-16, 1e-8), 6.93, 0., I.log('p3', 1e-7, 1e1)]
    if k == 'rate':
        p[1] = I.real('p1', .5, 16.)
    if k != 'rate':
        p[1] = I.case['p1']
    t = I.real('t', 0., 5.) if k != 'linear' else I.case['t']
    cf = I.cst.Chronologyfn({'chronology': [{'name': 'o', 'coefficients': [1., 2., 0., 3.]}, {'name': 'x', 'coefficients': list(p)}]}, 'x')
    E = np.exp(p[1] * t)
    arr = np.array([t])
    I.close(cf.N1(arr)[0], p[0] * (E - 1) + p[3] * t, 'accumulated density', rtol=1e-7)
    I.close(cf.N1(t), p[0] * (E - 1) + p[3] * t, 'accumulated density (scalar)', rtol=1e-7)
    I.close(cf.phi(arr)[0], p[0] * p[1] * E + p[3], 'rate is the derivative', rtol=1e-7)
    I.close(cf.phi(t), p[0] * p[1] * E + p[3], 'rate is the derivative (scalar)', rtol=1e-7)
    if k != 'rate':
        I.close(10 ** cf.a0(arr)[0] if k == 'linear' else cf.N1(0.), p[0] * (E - 1) + p[3] * t if k == 'linear' else 0., 'logarithm of the density' if k == 'linear' else 'zero at present', rtol=1e-7)
    I.reach('curve')


def h_series(I):
    """plotted series: curve and rate, linear and logarithmic ages"""
    np = I.np
    p = [I.real('p0', 1e-15, 1e-9), I.case['p1'], 0., I.real('p3', 1e-6, 1.)]
    cf = I.cst.Chronologyfn({'chronology': [{'name': 'x', 'coefficients': list(p)}]}, 'x')
    phi, lin = I.case['phi'], I.case['lin']
    t, y = cf.getplotdata(phi=phi, linear=lin)
    I.check(len(t) == len(y) and len(t) > 100, 'one value per age')
    step = 1 if I.tier != 'quick' else 37
    for i in list(range(0, len(t), step)) + [len(t) - 1]:
        ti = float(t[i])
        E = math.exp(p[1] * ti)
        want = p[0] * p[1] * E + p[3] if phi else p[0] * math.expm1(p[1] * ti) + p[3] * ti
        # exp(x)-1 of the code loses digits near the present
        I.close(y[i], want, 'plotted value at its age', rtol=1e-6, atol=1e-22)
    for i in range(1, len(t)):
        if not float(t[i]) > float(t[i - 1]):
            I.check(False, 'ages increase')
    I.check(float(t[-1]) > 4.999 and float(t[-1]) < 5.001, 'ages up to 5 Ga')
    I.check(float(t[0]) == 0 if lin else abs(math.log10(float(t[0])) + 9) < 1e-6, 'first age')
    q, r = (float(t[i + 1]) - float(t[i]) if lin else math.log10(float(t[i + 1]) / float(t[i])) for i in (5, 700))
    I.check(abs(q - r) < 1e-9, 'even spacing')
    I.reach('series')


def usable(I, name):
    try:
        return I.cst.Chronologyfn(SRC, name)
    except Exception as e:
        I.check(False, f'shipped function {name} usable: {type(e).__name__}')


def h_inverse(I):
    """age of a density, for shipped curves"""
    np = I.np
    if I.case['name'] == OBRIEN:
        usable(I, OBRIEN)
        return
    name, p, _ = next(f for f in shipped('chronology') if f[0] == I.case['name'])
    cf = usable(I, name)
    lo, hi = I.case['lo'], I.case['hi']
    form = I.case['form']
    if form == 'a0':
        x = I.real('x', math.log10(n1(p, lo)), math.log10(n1(p, hi)))
        d = 10 ** x
        t = cf.t(a0=x)
    elif form == 'n1':
        d = I.real('d', n1(p, lo), n1(p, hi))
        t = cf.t(n1=d)
    else:
        d = I.real('d', n1(p, lo), n1(p, hi))
        d2 = I.real('d2', n1(p, lo), n1(p, hi))
        I.assume(d <= d2)
        t, t2 = cf.t(n1=np.array([d, d2]))
        I.check(t2 >= t - 1e-12, 'age never decreases with density')
    k = max(1, int((hi - lo) / STEP * 2))
    g = [lo + (hi - lo) * i / k for i in range(k + 1)]
    for a in g:
        v = n1(p, a)
        I.check(I.imp(d >= v, t >= a - 1.01 * STEP), 'age not below the curve by more than a step')
        I.check(I.imp(d <= v, t <= a + 1.01 * STEP), 'age not above the curve by more than a step')
    I.check(I.all([t >= 0, t <= 5.0000001]), 'age within 0..5 Ga')
    I.reach('inverse')


def h_ends(I):
    np = I.np
    name, p, _ = shipped('chronology')[I.case['i']]
    cf = usable(I, name)
    d = I.log('d', n1(p, 5.) * 1.0001, 1e9)
    I.check(abs_le(I, cf.t(n1=d) - 5., 1e-9), 'densities above the curve: 5 Ga')
    I.check(abs_le(I, cf.t(a0=np.log10(d)) - 5., 1e-9), 'densities above the curve: 5 Ga (a0)')
    s = I.real('s', 0., .01)
    t = cf.t(n1=s * p[3])
    I.close(t, s, 'recent ages are linear in density', rtol=1e-2, atol=1e-9)
    e = I.real('e', -1e3, 0.)
    I.check(abs_le(I, cf.t(n1=e), 1e-12), 'no density, no age')
    # zero as the logarithm of a density is a density of one
    one = 5. if n1(p, 5.) <= 1 else next(i * STEP for i in range(1000) if n1(p, i * STEP) >= 1)
    I.check(abs(float(cf.t(a0=0.)) - one) <= 1.01 * STEP, 'constant term zero')
    I.reach('ends')


def cases_curve(tier):
    for p1 in (6.93, 6.757, 14.44):
        yield dict(sym='age', p1=p1)
        for t in (1e-9, .003, 1., 3.7, 4.9):
            yield dict(sym='linear', p1=p1, t=t)
    yield dict(sym='rate')


def cases_inverse(tier):
    names = [f[0] for f in shipped('chronology')]
    w = [(0., .011), (.5, .512), (3.41, 3.422), (4.98, 4.9999)] if tier == 'quick' else [(i * .05, (i + 1) * .05) for i in range(100)]
    for i, n in enumerate(names):
        for j, (lo, hi) in enumerate(w):
            for form in ('n1', 'a0', 'two'):
                if tier == 'quick' and (i + j) % 3 != ('n1', 'a0', 'two').index(form) or form == 'a0' and lo == 0:
                    continue
                yield dict(name=n, lo=lo, hi=hi, form=form)


HARNESSES = [
    Harness('curve', h_curve, cases_curve, bounds='all ages 0..5 with all p0, p3 for the shipped exponents; all exponents .5..16 too for the same formulas'),
    Harness('series', h_series, lambda t: [dict(p1=p1, phi=f, lin=l) for p1 in (6.93, 14.44) for f in (False, True) for l in (False, True)],
            bounds='all p0, p3 at the plotted ages (every 37th; thorough: every one)'),
    Harness('inverse', h_inverse, cases_inverse, bounds='every shipped curve, all densities of four age windows (thorough: the whole of 0..5 Ga in windows of 0.05)'),
    Harness('ends', h_ends, lambda t: [dict(i=i) for i in range(len(shipped('chronology')))], bounds='densities below and above the curve'),
]

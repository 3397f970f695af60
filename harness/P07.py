"""P07: the forms of a polynomial production function."""
import os
import re
from symx.check import Harness
from harness.util import *

SHIPPED = [0, 3, 6, 9]


def shipped(kind):
    """[(name, coefficients, range)] read from the configuration file by plain pattern matching"""
    t = open(os.path.join(os.environ.get('SYMX_SRC', '/repo/src'), 'craterstats/config/functions.txt'), encoding='utf-8-sig').read()
    t = '\n'.join(l for l in t.splitlines() if not l.lstrip().startswith('#'))
    out = []
    for b in re.findall(r'^' + kind + r'\s*=\s*\{(.*?)^\s*\}', t, re.S | re.M):
        n = re.search(r"name\s*=\s*['\"]?(.*?)['\"]?\s*$", b, re.M).group(1)
        c = re.search(r'coefficients\s*=\s*\*?\[(.*?)\]', b, re.S)
        r = re.search(r'^\s*range\s*=\s*\[(.*?)\]', b, re.M)
        num = lambda m: [float(x) for x in m.group(1).split(',')]
        if c:
            out.append((n, num(c), num(r) if r else None))
    return out


def poly(a, x):
    return sum_(c * x ** i for i, c in enumerate(a))


def slope(a, x):
    return sum_(i * c * x ** (i - 1) for i, c in enumerate(a) if i)


def forms(I, pf, a, ds, a0, label):
    """every form at the diameters ds with constant term a0 (None: the published one)"""
    np = I.np
    arr = np.array(ds)
    b = [a[0] if a0 is None else a0] + list(a[1:])
    got = {p: pf.evaluate(p, arr, a0) for p in ('cumulative', 'differential', 'R-plot', 'Hartmann')}
    for p, y in got.items():
        I.check(len(y) == len(ds), f'{label}: {p} has one value per diameter')
    for j, d in enumerate(ds):
        x = np.log10(d)
        C = 10 ** poly(b, x)
        I.close(got['cumulative'][j], C, f'{label}: cumulative', rtol=1e-8)
        F = -1 * C * slope(b, x) / d
        I.close(got['differential'][j], F, f'{label}: differential is minus the derivative', rtol=1e-7)
        I.close(got['R-plot'][j], F * d ** 3, f'{label}: R is the differential times d cubed', rtol=1e-7)
        I.close(got['Hartmann'][j], F * d * (2 ** .25 - 2 ** -.25), f'{label}: Hartmann form', rtol=1e-7)
    return got


def h_forms(I):
    np = I.np
    deg = I.case['deg']
    a = [I.real(f'a{i}', -10., 10.) for i in range(deg + 1)]
    d = [I.log('d', 1e-3, 1e3)] + [1.] * (I.case['nd'] - 1)
    x = np.log10(d[0])
    if I.case.get('rising'):
        I.assume(slope(a, x) >= 1e-3)
    else:
        I.assume(slope(a, x) <= -1e-3)
        I.assume(slope(a, 0.) <= -1e-3)
    pf = I.cst.Productionfn({'production': [{'name': 'other', 'coefficients': [5., 6.]}, {'name': 'x', 'coefficients': list(a)}]}, 'x')
    k = I.case['a0']
    a0 = None if k == 'none' else 0 if k == 'zero' else I.real('a0', -12., 6.)
    forms(I, pf, a, d, a0, 'forms')
    for i in range(deg + 1):
        I.check(pf.a[i] == a[i], 'coefficients unchanged by evaluation')
    b0 = a[0] if a0 is None else a0
    if k != 'none':
        x0 = np.log10(np.array(d))
        I.close(pf.C10(x0, b0)[0], poly([b0] + a[1:], x), 'log cumulative', rtol=1e-8, atol=1e-8)
        if not I.case.get('rising'):
            f10 = pf.F10(x0, b0)[0]
            I.close(10 ** f10 * d[0], -1 * 10 ** poly([b0] + a[1:], x) * slope(a, x), 'log differential', rtol=1e-7)
        s = I.real('shift', -5., 5.)
        for p in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
            y, y2 = pf.evaluate(p, np.array(d), b0)[0], pf.evaluate(p, np.array(d), b0 + s)[0]
            I.close(y2, y * 10 ** s, f'{p} scales with the constant term', rtol=1e-7)
    I.reach('forms')


def h_scalar(I):
    """one diameter given as a number; the valid range; unknown names"""
    a = [I.real(f'a{i}', -10., 10.) for i in range(3)]
    d = I.log('d', 1e-3, 1e3)
    I.assume(slope(a, I.np.log10(d)) <= -1e-3)
    r = sorted([.01, 50.])
    pf = I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': list(a), 'range': r}, {'name': 'y', 'coefficients': [1., 2.]}]}, 'x')
    a0 = I.real('a0', -12., 6.)
    I.close(pf.evaluate('cumulative', d, a0), 10 ** poly([a0] + a[1:], I.np.log10(d)), 'scalar cumulative', rtol=1e-8)
    I.close(pf.evaluate('differential', d, a0) * d, -1 * 10 ** poly([a0] + a[1:], I.np.log10(d)) * slope(a, I.np.log10(d)), 'scalar differential', rtol=1e-7)
    I.check(len(pf.range) == 2 and abs(pf.range[0] - .01) < 1e-6 and abs(pf.range[1] - 50.) < 1e-4, 'range of validity as published')
    try:
        I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': [1., 2.]}]}, 'z')
        I.check(False, 'unknown function refused')
    except ValueError:
        I.check(True, 'unknown function refused')
    I.reach('scalar')


def h_shipped(I):
    kind = I.case['kind']
    fs = shipped(kind)
    name, a, r = fs[I.case['i'] % len(fs)]
    src = os.path.join(os.environ.get('SYMX_SRC', '/repo/src'), 'craterstats/config/functions.txt')
    pf = I.cst.Productionfn(src, name, equilibrium=kind == 'equilibrium')
    lo, hi = r or (1e-4, 2e3)
    k = I.case['part']
    w = (hi / lo) ** (1 / 3)
    d = I.log('d', lo * w ** k, lo * w ** (k + 1))
    a0 = I.real('a0', -12., 6.) if I.case['a0'] else None
    np = I.np
    x = np.log10(d)
    I.close(pf.evaluate('cumulative', d, a0), 10 ** poly([a[0] if a0 is None else a0] + a[1:], x), 'published cumulative', rtol=1e-6)
    I.close(pf.range[0], lo, 'published range', rtol=1e-5)
    I.close(pf.range[1], hi, 'published range', rtol=1e-5)
    I.reach('shipped')


def cases(tier):
    for deg in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5, 7, 11):
        for a0 in ('none', 'zero', 'any'):
            yield dict(deg=deg, a0=a0, nd=1 if deg > 2 else 2)
        yield dict(deg=deg, a0='any', nd=1, rising=True)


def cases_shipped(tier):
    for kind in ('production', 'equilibrium'):
        for i in range(len(shipped(kind))):
            for part in (0, 1, 2):
                for a0 in (0, 1):
                    yield dict(kind=kind, i=i, part=part, a0=a0)


HARNESSES = [
    Harness('forms', h_forms, cases, bounds='degree 1..3 (thorough: 11), coefficients -10..10, diameters 1e-3..1e3 km, constant term none, zero or any, falling and rising curves'),
    Harness('scalar', h_scalar, bounds='degree 2, scalar diameter'),
    Harness('shipped', h_shipped, cases_shipped, bounds='every shipped polynomial production and equilibrium function over its range, with and without constant term'),
]

"""P15: epoch limits and their formatting codes."""
import os
import re
from symx.check import Harness
from harness.util import *

COEF = {'lin': [-3., -2.5], 'Ivanov01': [-3.384, -3.197, 1.257, .7915, -.4861, -.3630, .1016, 6.756e-2, -1.181e-2, -4.753e-3, 6.233e-4, 5.805e-5]}


class Cf:
    """any chronology: an injective map of the constant term"""

    def __init__(self, I):
        self.I = I

    def a0(self, t):
        return (t - 30.) / 2.

    def t(self, a0=None, n1=None):
        if a0 is None:
            a0 = self.I.np.log10(n1)
        return a0 * 2. + 30.


def pf_(I):
    return I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': list(COEF[I.case['pf']])}]}, 'x')


def definition(I, n, **k):
    d = {'name': 'sys', 'epoch': [f'e{i}' for i in range(n)], 'formatting': ['60'] + ['0'] * n, 'reference': 'r'}
    d.update(k)
    return d


def h_density(I):
    n = I.case['n']
    D = I.case['D'][:n]
    dens = [I.log(f'n{i}', 1e-2, 1e6) for i in range(n)]
    src = {'epochs': [definition(I, 2, name='other', time=['0', '1']),
                      definition(I, n + 1, ref_diameter=[repr(x) if x != int(x) else str(int(x)) for x in D], density=[I.token(x) for x in dens])]}
    e = I.cst.Epochs(src, 'sys', pf_(I), Cf(I))
    I.check(len(e.time) == n + 1, 'one limit per density, and the present')
    I.close(e.time[0], 0., 'starts at the present', atol=1e-12)
    for i in range(n):
        x = math.log10(D[i])
        a0 = I.np.log10(dens[i]) - 6. - sum(c * x ** j for j, c in enumerate(COEF[I.case['pf']]) if j)
        I.close(e.time[i + 1], a0 * 2. + 30., 'limit is the age of the density at its reference diameter', rtol=1e-6, atol=1e-6)
    I.check(str(e) == 'sys' and list(e.epoch) == [f'e{i}' for i in range(n + 1)], 'epochs of the requested system')
    I.reach('density')


def h_time(I):
    n = I.case['n']
    t = [0.] + [I.real(f't{i}', 1e-6, 5.) for i in range(1, n)]
    src = {'epochs': [definition(I, 2, name='other', time=['0', '1']), definition(I, n, time=[I.token(x) if i else '0.' for i, x in enumerate(t)])]}
    e = I.cst.Epochs(src, 'sys', pf_(I), Cf(I))
    I.check(len(e.time) == n, 'one limit per age')
    for i in range(n):
        I.close(e.time[i], t[i], 'given ages are used', rtol=1e-9, atol=1e-12)
    try:
        I.cst.Epochs(src, 'none', pf_(I), Cf(I))
        I.check(False, 'unknown system refused')
    except ValueError:
        I.check(True, 'unknown system refused')
    I.reach('time')


def h_format(I):
    """colour digit (0..9, possibly missing), r for the label side, b for a boundary, in either order"""
    n = I.case['n']
    codes = [I.choice(f'd{i}', list(range(4)) + [9]) for i in range(n)]
    fl = [I.choice(f'f{i}', ['', 'b', 'r', 'br', 'rb']) for i in range(n)]
    slant = I.choice('slant', [0, 60, 90, -45])
    src = {'epochs': [definition(I, n, time=[str(i) for i in range(n)], formatting=[str(slant)] + [f'{c}{f}' for c, f in zip(codes, fl)])]}
    e = I.cst.Epochs(src, 'sys', pf_(I), Cf(I))
    s, colour, offset, boundary = e.decode_formatting()
    I.check(s == slant, 'label slant')
    I.check(list(colour) == codes, 'colours in order')
    I.check([bool(x) for x in offset] == ['r' in f for f in fl], 'label sides in order')
    I.check([bool(x) for x in boundary] == ['b' in f for f in fl], 'boundaries in order')
    I.reach('format')


def h_text(I):
    """a definition given as text"""
    n = 3
    dens = [I.log(f'n{i}', 1e-2, 1e6) for i in range(n)]
    tok = ','.join(['%s'] * n) % tuple(['#%d#' % i for i in range(n)])
    txt = "epochs={\n name='sys'\n epoch=['A','B','C','D']\n formatting=[60,0b,1,2r,0]\n ref_diameter=[1,5,16]\n density=[" + tok + "]\n reference='x'\n}"
    for i in range(n):
        a, b = txt.split('#%d#' % i)
        txt = a + I.token(dens[i]) + b
    e = I.cst.Epochs(txt, 'sys', pf_(I), Cf(I))
    I.check(len(e.time) == n + 1, 'limits')
    for i, D in enumerate((1., 5., 16.)):
        x = math.log10(D)
        a0 = I.np.log10(dens[i]) - 6. - sum(c * x ** j for j, c in enumerate(COEF[I.case['pf']]) if j)
        I.close(e.time[i + 1], a0 * 2. + 30., 'limit is the age of the density at its reference diameter', rtol=1e-6, atol=1e-6)
    I.reach('text')


def h_shipped(I):
    """every shipped system, with the chronology scaled by a free factor"""
    src = os.path.join(os.environ.get('SYMX_SRC', '/repo/src'), 'craterstats/config/functions.txt')
    t = open(src, encoding='utf-8-sig').read()
    b = [x for x in re.findall(r'^epochs\s*=\s*\{(.*?)^\s*\}', t, re.S | re.M)]
    x = b[I.case['i'] % len(b)]
    name = re.search(r"name\s*=\s*'(.*)'", x).group(1)
    g = I.real('g', .5, 2.)

    class C(Cf):
        def t(self, a0=None, n1=None):
            return a0 * g + 30.
    e = I.cst.Epochs(src, name, pf_(I), C(I))
    lst = lambda k: [y.strip() for y in m.group(1).split(',')] if (m := re.search(r'^\s*' + k + r'\s*=\s*\*?\[(.*?)\]', x, re.M)) else None
    if lst('time'):
        I.check([float(y) for y in lst('time')] == list(e.time), 'published ages')
        I.check(e.time == sorted(e.time), 'ages increase')
    else:
        for i, (D, v) in enumerate(zip(lst('ref_diameter'), lst('density'))):
            u = math.log10(float(D))
            a0 = math.log10(float(v)) - 6. - sum(c * u ** j for j, c in enumerate(COEF[I.case['pf']]) if j)
            I.close(e.time[i + 1], a0 * g + 30., 'published densities', rtol=1e-6, atol=1e-6)
    I.check(len(e.epoch) in (len(e.time), len(e.time) + 0) and len(e.epoch) == len(re.findall("'", re.search(r'epoch=\*?\[(.*?)\]', x).group(1))) // 2, 'epoch names')
    I.reach('shipped')


HARNESSES = [
    Harness('density', h_density, lambda t: [dict(n=n, pf=pf, D=D) for n in (1, 2, 4) for pf in COEF for D in ([1, 1, 5, 16], [16, 1, 2, 5], [1, .5, 2.5, 20], [64, 1, 100, 300])], bounds='1..4 limits, any densities 1e-2..1e6 per 1e6 km2, in any order, whole and fractional reference diameters .5..300 km'),
    Harness('time', h_time, lambda t: [dict(n=n, pf='lin') for n in (2, 3, 5)], bounds='2..5 given ages'),
    Harness('format', h_format, lambda t: [dict(n=n, pf='lin') for n in ((1, 2) if t == 'quick' else (1, 2, 3))], bounds='1..2 (thorough 3) epochs, every colour digit 0..3 and 9, every flag combination'),
    Harness('text', h_text, lambda t: [dict(pf='lin')], bounds='three limits'),
    Harness('shipped', h_shipped, lambda t: [dict(i=i, pf='Ivanov01') for i in range(3)], bounds='every shipped epoch system'),
]

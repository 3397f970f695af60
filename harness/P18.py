"""P18: numbers, ages, densities and ranges written for the reader."""
from symx.check import Harness
from harness.util import *

UNITS = [('Ga', 1.), ('Ma', 1e-3), ('ka', 1e-6), ('a', 1e-9)]


def decade(x):
    """whole part of the decimal logarithm (forks on symbolic values)"""
    k = -14
    while x >= 10. ** (k + 1) * (1 - 1e-14):
        k += 1
    return k


def tags(s):
    """text pieces between markup tags"""
    out = []
    for p in s.split('<'):
        q = p.split('>')
        out.append(q[-1])
    return [p for p in out if len(p)]


def ndigits(s):
    """significant digits shown (symbolic texts: zeros only where they are literal)"""
    n, lead, point = 0, True, '.' in s
    for ch in s:
        if ch == '.' or ch == '-':
            continue
        if lead and ch == '0':
            continue
        lead = False
        n += 1
    return n


def reads(I, text, v, sf, unit, label):
    """text (times unit) is v to sf significant figures"""
    x = I.tonum(text) * unit
    a = v if v >= 0 else -v
    if a < 1e-14:
        I.check(I.all([x <= 1e-14, x >= -1e-14]), label)
        return
    k = decade(a)
    h = .5 * 10. ** (k + 1 - sf) * (1 + 1e-6)
    I.check(I.all([x - v <= h, v - x <= h]), label)


def value(I, lo, hi):
    v = I.real('v', lo, hi)
    return -v if I.case.get('neg') else v


def h_sigfigs(I):
    sf = I.case['sf']
    v = value(I, *I.case['v'])
    s = I.gm.sigfigs(v, sf)
    reads(I, s, v, sf, 1., 'significant figures')
    I.check(not ('e' in s), 'no exponent')
    if '.' in s and not (len(s) and s.startswith('0.')) and not s.startswith('-0.'):
        I.check(ndigits(s) == sf, 'number of digits')
    I.check(s.startswith('-') == bool(I.case.get('neg')), 'sign')
    if I.case.get('list'):
        w = I.gm.sigfigs([v, 2. * v], sf)
        I.check(len(w) == 2, 'every member of a list')
        reads(I, w[0], v, sf, 1., 'every member of a list')
        reads(I, w[1], 2. * v, sf, 1., 'every member of a list')
    I.reach('sigfigs')


def split_age(I, s, style):
    """(value text, plus text, minus text, unit text)"""
    if style == 'math':
        t = tags(s)
        I.check(s.startswith('<math') and s.endswith('</math>'), 'markup')
        t = [p for p in t if not p == '&#956;']
        unit = t[-1].replace('&#8239;', '')
        if len(t) == 2:
            return t[0], None, None, unit
        minus, plus = t[1], t[2]
        I.check(minus.startswith('&#x2212;') and plus.startswith('+'), 'signs of the uncertainties')
        return t[0], plus[1:], minus[8:], unit
    if style == 'simple':
        v, unit = s.split(' ')
        return v, None, None, unit
    I.check(s.startswith('$'), 'markup')
    body, unit = s[1:].split('$ ')
    body = body.replace('\U0001d707', '')
    if '^' in body:
        v, rest = body.split('^{+')
        plus, rest = rest.split('}_{-')
        return v, plus, rest[:-1], unit
    return body, None, None, unit


def h_age(I):
    c = I.case
    sf, style = c['sf'], c['style']
    v = I.real('v', *c['v'])
    k = dict(sf=sf)
    if style == 'math':
        k['MathML'] = True
    if style == 'simple':
        k['simple'] = True
    if c['mu']:
        k['mu'] = True
    if c['unit']:
        k['unit'] = c['unit']
    e1 = e2 = 0.
    if c['err']:
        e1 = v * I.real('f1', .011, .9) if c['err'] == 'plus' else v * .25
        e2 = v * I.real('f2', .011, .9) if c['err'] == 'minus' else v * .125
    if c['err'] == 'hidden':
        k['no_error'] = True
    s = I.cst.str_age(v, e1, e2, **k)
    if c['mu'] and style != 'simple':
        I.check(('\U0001d707' in s) or ('&#956;' in s), 'uncertainty function shown')
    val, plus, minus, unit = split_age(I, s, style)
    names = [u for u, _ in UNITS]
    f = [x for u, x in UNITS if unit == u]
    I.check(len(f) == 1, 'known unit')
    f = f[0]
    if c['unit']:
        I.check(unit == c['unit'], 'requested unit')
    else:
        I.check(I.any([v >= f * (1 - 1e-12), f == 1e-9]), 'largest unit not exceeding the age')
        I.check(I.any([f == 1., v < f * 1e3 * (1 + 1e-12)]), 'largest unit not exceeding the age')
    reads(I, val, v, 6 if style == 'simple' else sf, f, 'age')
    if c['err'] in ('plus', 'minus') and style != 'simple':
        I.check(plus is not None and minus is not None, 'uncertainties shown')
        reads(I, plus, e1, sf - 1, f, 'upper uncertainty')
        reads(I, minus, e2, sf - 1, f, 'lower uncertainty')
    else:
        I.check(plus is None, 'no uncertainties')
    I.reach('age')


def h_sci(I):
    c = I.case
    sf = c['sf']
    v = value(I, *c['v'])
    k = dict(sf=sf, force=c['force'])
    if c['unit']:
        k['unit'] = c['unit']
    a = [v]
    if c['err']:
        e1 = v * (1. + (I.real('f1', .011, 3.) if c['err'] == 'plus' else .5))
        e2 = v * (1. - (I.real('f2', .011, .95) if c['err'] == 'minus' else .25))
        a += [e1, e2]
    s = I.gm.scientific_notation(*a, MathML=c['math'], **k)
    ex = 0
    plus = minus = None
    if c['math']:
        I.check(s.startswith('<math') and s.endswith('</math>'), 'markup')
        if c['unit']:
            I.check('<mtext>' + {'km2': '2', 'km-2': '-2'}[c['unit']] + '</mtext></msup></math>' in s and 'km<' in s, 'unit')
            s = s[:s.rfind('<msup>')]
        if '&#183;' in s:
            s, rest = s.split('<mo>&#183;</mo>')
            t = tags(rest)
            I.check(t[0] == '10', 'power of ten')
            ex = I.tonum(t[1])
        t = tags(s)
        val = t[0]
        if len(t) > 1:
            minus, plus = t[1], t[2]
            I.check(minus.startswith('&#x2212;') and plus.startswith('+'), 'signs of the uncertainties')
            minus, plus = minus[8:], plus[1:]
    else:
        I.check(s.startswith('$') and s.endswith('$'), 'markup')
        body = s[1:-1]
        if c['unit']:
            e = '$ km$^{' + {'km2': '2', 'km-2': '-2'}[c['unit']] + '}'
            I.check(body.endswith(e), 'unit')
            body = body[:-len(e)]
        if '\\cdot10^{' in body:
            body, rest = body.split('\\cdot10^{')
            ex = I.tonum(rest[:-1])
        val = body
        if '^{+' in body:
            val, rest = body.split('^{+')
            plus, rest = rest.split('}_{-')
            minus = rest[:-1]
    f = 10. ** float(ex)
    reads(I, val, v, sf, f, 'value')
    a = v if v >= 0 else -v
    if not c['force']:
        I.check(I.imp(I.all([a > .010001, a < 9990.]), ex == 0), 'no multiplier for moderate values')
    if c['force'] or a < .00999 or a > 10010.:
        x = I.tonum(val)
        x = x if x >= 0 else -x
        I.check(I.all([x >= 1 - 1e-9, x <= 10 + 1e-9]), 'mantissa between 1 and 10')
    if c['err']:
        I.check(plus is not None, 'uncertainties shown')
        reads(I, plus, e1 - v, sf - 1, f, 'upper uncertainty')
        reads(I, minus, v - e2, sf - 1, f, 'lower uncertainty')
    I.reach('sci')


def h_range(I):
    sf = I.case['sf']
    lo = I.real('lo', *I.case['lo']) if I.case['free'] == 'lo' else I.case['lo'][0]
    hi = I.real('hi', *I.case['hi']) if I.case['free'] == 'hi' else I.case['hi'][1]
    d = [lo, hi] if I.case['list'] else I.np.array([lo, hi])
    s = I.gm.diameter_range(d, sf) if sf != 2 else I.gm.diameter_range(d)
    t, unit = s.split(' ')
    I.check(unit == 'km' or unit == 'm', 'unit')
    I.check(I.imp(hi < 1, unit == 'm') if unit == 'km' else hi < 1, 'metres below 1 km')
    f = 1. if unit == 'km' else 1e-3
    a, b = t.split('\u2013')
    reads(I, a, lo, sf, f, 'lower diameter')
    reads(I, b, hi, sf, f, 'upper diameter')
    if I.case.get('inf'):
        I.check(I.gm.diameter_range([lo, float('inf')]) == 'unconstrained', 'no upper limit')
    I.reach('range')


def h_percentile(I):
    sf = I.case['sf']
    if I.case['side'] == 'low':
        p = I.real('p', *I.case['p'])
        s = I.gm.percentile_sigfigs(p, sf)
        reads(I, s, p, sf, 1., 'percentile')
    else:
        q = I.real('q', *I.case['p'])
        p = 100. - q
        s = I.gm.percentile_sigfigs(p, sf) if sf != 2 else I.gm.percentile_sigfigs(p)
        x = I.tonum(s)
        k = decade(q)
        h = .5 * 10. ** (k + 1 - sf) * (1 + 1e-6)
        # one figure fewer where the last one is a zero
        I.check(I.all([x - p <= h, p - x <= h]), 'percentile near 100 resolved as near 0')
    I.reach('percentile')


V = [(1e-7, 9.9e-4), (1e-3, .99), (1., 999.), (1e3, 9.9e6)]


def c_sig(t):
    return [dict(sf=sf, v=v, neg=n) for sf in (1, 2, 3, 5) for v in V for n in ((0, 1) if sf in (2, 3) else (0,))] + [dict(sf=2, v=(.1, 99.), list=1)]


def c_age(t):
    c = []
    for st in ('latex', 'math'):
        for v in ((1.000, 4.5), (1e-3, .9999), (1e-6, 9.9e-4), (1e-9, 9.9e-7), (1e-10, 9e-10)):
            for sf in ((3,) if t == 'quick' else (2, 3, 4)):
                c.append(dict(style=st, v=v, sf=sf, err='', mu=sf == 3, unit=None))
        for v in ((1., 4.5), (.01, .0999), (.1, .999), (1e-5, 9.9e-5)):
            for e in ('plus', 'minus'):
                c.append(dict(style=st, v=v, sf=3 if e == 'plus' else 2, err=e, mu=st == 'math', unit=None))
        c.append(dict(style=st, v=(.1, 4.5), sf=3, err='hidden', mu=1, unit=None))
        c.append(dict(style=st, v=(.01, 4.5), sf=3, err='', mu=0, unit='Ma'))
        c.append(dict(style=st, v=(.01, 4.5), sf=3, err='minus' if t != 'quick' else '', mu=0, unit='Ga'))
    c += [dict(style='simple', v=v, sf=3, err='', mu=0, unit=None) for v in ((1., 4.5), (.1, .9999), (1e-4, 9.9e-4))]
    return c


def c_sci(t):
    c = []
    for m in (False, True):
        for v in ((1e-7, 9.9e-4), (1e-3, .0999), (.1, 9.99), (10., 999.), (1e3, 99999.), (1e5, 9.9e7)):
            c.append(dict(v=v, sf=3, math=m, err='', force=False, unit='km-2' if v[0] < 1 else 'km2'))
        c.append(dict(v=(.5, 200.), sf=2, math=m, err='', force=True, unit=None))
        c.append(dict(v=(1e-4, .5), sf=4, math=m, err='', force=False, unit=None, neg=1))
        for v in ((1e-5, 9.9e-5), (.005, .05), (1., 9.9), (9000., 20000.)):
            for e in ('plus', 'minus'):
                c.append(dict(v=v, sf=3, math=m, err=e, force=False, unit='km-2'))
    return c


HARNESSES = [
    Harness('sigfigs', h_sigfigs, c_sig, bounds='any value of 1e-7..9.9e6, both signs; 1, 2, 3, 5 figures'),
    Harness('age', h_age, c_age, bounds='any age 1e-10..4.5 Ga, one uncertainty of 1 to 90 % free at a time; 2..3 (thorough 4) figures; LaTeX, MathML and simple style'),
    Harness('sci', h_sci, c_sci, bounds='any value 1e-7..9.9e7 with either uncertainty free; LaTeX and MathML'),
    Harness('range', h_range, lambda t: [dict(sf=sf, lo=lo, hi=hi, free=f, list=l, inf=1) for sf, l in ((2, 1), (3, 0)) for lo, hi in (((.001, .09), (.1, .99)), ((.05, 1.), (1., 20.)), ((1., 20.), (20., 500.)), ((.2, .9), (.95, 1.05))) for f in ('lo', 'hi')], bounds='any lower or upper limit 1 m to 500 km'),
    Harness('percentile', h_percentile, lambda t: [dict(sf=sf, side=s, p=p) for sf in (2, 3) for s in ('low', 'high') for p in ((1e-6, 9e-4), (.001, .99), (1., 49.))], bounds='percentiles from 1e-6 to 50 and their mirror images'),
]

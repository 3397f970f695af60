"""P01: reading .diam and .scc files."""
import itertools
from symx.check import Harness

FORMS = ['plain', 'exp']


def same_multiset(I, got, want, label):
    """multiset equality of tuples of numbers"""
    I.check(len(got) == len(want), label + ': number of craters')
    eq = lambda a, b: I.all([close(I, x, y) for x, y in zip(a, b)])
    for i, w in enumerate(want):
        I.check(I.count([eq(g, w) for g in got]) == I.count([eq(v, w) for v in want]), f'{label}: crater {i} is kept with its weight')


def close(I, x, y):
    d = x - y
    t = 1e-9 * y
    return I.all([d <= t, d >= -t])


def layout(I, head, rows, pre, post):
    """table text with the rows in a symbolic-independent layout choice"""
    lay = I.choice('layout', ['plain', 'comments', 'spaced'] if not I.case.get('plain') else ['comments'])
    sep = {'plain': '\t', 'comments': '  ', 'spaced': '   '}[lay]
    t = list(pre)
    if lay == 'comments':
        t = ['# a comment line = 3', '#'] + t + ['# area = 77', '']
    t.append('crater = {' + {'plain': ', ', 'comments': ',', 'spaced': ' , '}[lay].join(head))
    for k, r in enumerate(rows):
        line = sep.join(r)
        if lay == 'comments' and k == 0:
            line += ' ;trailing comment'
        if lay == 'spaced':
            line = '  ' + line + ' '
        t.append(line)
        if lay == 'comments' and k == 0:
            t.append('# 17  0.3')
    t.append('}')
    t += post
    return '\n'.join(t) + ('\n' if lay != 'spaced' else '')


def h_diam(I):
    mode, n, order = I.case['mode'], I.case['n'], I.case['order']
    d = [I.real(f'd{i}', 1e-3, 9e3) for i in range(n)]
    f = [I.real(f'f{i}', 1e-3, 1.) if mode != 'ref' else I.real(f'f{i}', 1., 1e6) for i in range(n)]
    area = I.real('area', .01, 9e7)
    fa = I.choice('form_area', FORMS if not I.case.get('plain') else FORMS[:1])
    fd = I.choice('form_d', FORMS) if not I.case.get('plain') else 'exp'
    name = {'frac': 'fraction', 'ref': 'reference_area', 'none': 'lon'}[mode]
    cols = {'diameter': [I.token(x, fd) for x in d], name: [I.token(x, 'plain') for x in f], 'tag': ['standard'] * n}
    head = list(itertools.permutations(cols))[order]
    head = head if mode != 'none' or order % 2 else tuple(h for h in head if h != 'lon')
    rows = [[cols[h][k] for h in head] for k in range(n)]
    al = ['area = ' + I.token(area, fa)]
    first = I.choice('area_first', [True, False])
    p = I.writefile('x.diam', layout(I, head, rows, al if first else [], [] if first else al))
    cc = I.cst.Cratercount(p)
    want = [(d[k], {'frac': f[k], 'ref': 1 / f[k], 'none': 1.}[mode]) for k in range(n)]
    same_multiset(I, list(zip(cc.diam, cc.fraction)), want, 'craters')
    if mode == 'ref':
        I.check(bool(cc.buffered), 'buffered count recognised')
        I.close(cc.area, 1., 'nominal area', rtol=1e-9)
    else:
        I.check(not cc.buffered, 'not buffered')
        I.close(cc.area, area, 'area', rtol=1e-7)
    I.check(not cc.prebinned, 'not prebinned')
    I.reach('read')


def h_scc(I):
    mode, n, order = I.case['mode'], I.case['n'], I.case['order']
    d = [I.real(f'd{i}', 1e-3, 9e3) for i in range(n)]
    f = [I.real(f'f{i}', 1e-3, 1.) for i in range(n)]
    lon = [I.real(f'lon{i}', -179, 179) for i in range(n)]
    area = I.real('area', .01, 9e7)
    per = I.real('perimeter', .01, 9e5)
    forms = [I.choice('form_area', FORMS), I.choice('form_per', FORMS)]
    unit = I.choice('unit', ['', ' <km>', ' <km2>'])
    key = I.choice('perimeter_key', ['Perimeter', 'Total_perimeter', None])
    cols = {'diam': [I.token(x, I.case['form_d']) for x in d], 'fraction': [I.token(x) for x in f], 'lon': [I.token(x) for x in lon]}
    if mode == 'none':
        del cols['fraction']
    head = list(itertools.permutations(cols))
    head = head[order % len(head)]
    rows = [[cols[h][k] for h in head] for k in range(n)]
    pre = ['a_axis_radius = 3396.19 <km>', 'Total_area = ' + I.token(area, forms[0]) + unit]
    if key:
        pre.append(f'{key} = ' + I.token(per, forms[1]) + unit)
    pre += ['unit_boundary = {vertex,sub_area,tag,lon,lat', '1 1 ext 0.5 1.5', '2 1 ext 2.5 3.5', '}']
    p = I.writefile('x.scc', layout(I, head, rows, pre, []))
    cc = I.cst.Cratercount(p)
    same_multiset(I, list(zip(cc.diam, cc.fraction)), [(d[k], f[k] if mode == 'frac' else 1.) for k in range(n)], 'craters')
    I.close(cc.area, area, 'area', rtol=1e-7)
    if key:
        I.close(cc.perimeter, per, 'perimeter', rtol=1e-7)
    else:
        I.check(cc.perimeter is None, 'no perimeter')
    I.reach('read')


def cases_diam(tier):
    for mode in ('frac', 'ref', 'none'):
        for order in range(6):
            for n in ((2,) if tier == 'quick' else (1, 2, 3)):
                yield dict(mode=mode, n=n, order=order)
    yield dict(mode='frac', n=3, order=1, plain=True)


def cases_scc(tier):
    for mode in ('frac', 'none'):
        for order in range(6 if mode == 'frac' else 2):
            for n in ((2,) if tier == 'quick' else (1, 2, 3)):
                yield dict(mode=mode, n=n, order=order, form_d='exp' if order % 2 else 'plain')


HARNESSES = [
    Harness('diam', h_diam, cases_diam, bounds='1..3 craters, all real diameters/fractions/reference areas/areas, 6 column orders, 3 layouts, 2 number notations',
            quick=dict(wit_every=20)),
    Harness('scc', h_scc, cases_scc, bounds='1..3 craters, all real values, all column orders, units, perimeter keys, notations'),
]
ASSUMPTIONS = ['numbers in files are opaque tokens whose float() value is symbolic; their digits are not explored (P19/P20 explore text)']

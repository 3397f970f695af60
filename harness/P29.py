"""P29: merging crater files keeps all craters, fractions and the total area."""
import os
from symx.check import Harness
from harness.P24 import Any, Patch


def table(I, kind, k, n, c, frac):
    """text of one crater file and its (diameter, fraction) pairs, area, perimeter"""
    A = I.real(f'area{k}', 0.5, 4000)
    d = [I.real(f'd{k}_{i}', 0.01, 300) for i in range(n)]
    f = [I.real(f'f{k}_{i}', 0.01, 1) for i in range(n)] if frac else [1.] * n
    if n == 0:
        d, f = [], []
    p = None
    if kind == 'diam':
        t = f'# list {k}\narea = ' + num(I, A) + '\n' + 'crater = {diameter' + (', fraction' if frac else '') + '\n'
        for a, b in zip(d, f):
            t = t + num(I, a) + ('\t' + num(I, b) if frac else '') + '\n'
    else:
        t = f'# list {k}\nTotal_area = ' + num(I, A) + ' <km2>\n'
        if c.get('per', (1, 1, 1))[k]:
            p = I.real(f'per{k}', 0.1, 900)
            t = t + 'Total_perimeter = ' + num(I, p) + ' <km>\n'
        t = t + 'crater = {diam, ' + ('fraction, ' if frac else '') + 'lon, lat\n'
        for a, b in zip(d, f):
            t = t + num(I, a) + '\t' + (num(I, b) + '\t' if frac else '') + '1.5\t-2\n'
    return t + '}\n', list(zip(d, f)), A, p


def num(I, v):
    return I.tostr(v)


def unordered(I, got, want, label):
    """the same pairs, in any order"""
    I.check(len(got) == len(want), label + ': number')
    if len(got) == 1:
        perms = [(0,)]
    else:
        import itertools
        perms = list(itertools.permutations(range(len(want))))
    I.check(I.any([I.all([I.all([g[0] == want[j][0], g[1] == want[j][1]]) for g, j in zip(got, p)]) for p in perms]), label)


def h_merge(I):
    c = I.case
    I.opaque_numbers()
    I.capture_writes()
    wd = os.getcwd()
    os.chdir(I.tmp)
    try:
        names, pairs, areas, pers, texts = [], [], [], [], []
        for k, (name, kind, n, frac) in enumerate(c['files']):
            t, pr, A, p = table(I, kind, k, n, c, frac)
            names.append(name + '.' + kind)
            texts.append(t)
            I.writefile(names[-1], t)
            pairs += pr
            areas.append(A)
            pers.append(p)
        args = Any(merge=' '.join('"' + x + '"' if ' ' in x else x for x in names), out=c.get('out'))
        I.mod('craterstats.miscellaneous').merge_cratercounts(args)
        want = c['want']
        I.check(I.exists(os.path.join(I.tmp, want)), 'written to the requested or default name')
        cc = I.cst.Cratercount(os.path.join(I.tmp, want))
        unordered(I, list(zip(cc.diam, cc.fraction)), pairs, 'every crater with its own fraction')
        s = areas[0]
        for A in areas[1:]:
            s = s + A
        I.close(cc.area, s, 'total area', 1e-12)
        st = I.gm.read_textstructure(os.path.join(I.tmp, want))
        given = [p for p in pers if p is not None]
        if given:
            s = given[0]
            for p in given[1:]:
                s = s + p
            I.check('perimeter' in st, 'perimeter given')
            I.close(I.tonum(st['perimeter']), s, 'total perimeter', 1e-12)
        else:
            I.check('perimeter' not in st or I.tonum(st['perimeter']) == 0, 'no perimeter')
        for x, t in zip(names, texts):
            I.eqtext(I.readback(os.path.join(I.tmp, x)), t, 'inputs unchanged')
    finally:
        os.chdir(wd)
    I.reach('merge')


def h_refuse(I):
    c = I.case
    wd = os.getcwd()
    os.chdir(I.tmp)
    try:
        I.writefile('a.diam', 'area = 2\ncrater = {diameter\n1\n2\n}\n')
        I.writefile('b.diam', 'area = 3\ncrater = {diameter\n4\n2\n}\n')
        I.writefile('s.stat', '1.0 5 5.0E-3 1E-3 7 7.0E-3 1E-3\n2.0 2 2.0E-3 1E-3 2 2.0E-3 1E-3\n')
        before = sorted(os.listdir(I.tmp))
        log = []
        with Patch(I.gm, write_textfile=lambda f, *a, **k: log.append(f)):
            _, e = I.call_exit(lambda: I.mod('craterstats.miscellaneous').merge_cratercounts(Any(merge=c['files'], out=c.get('out'))))
        I.check(e is not None, 'refused')
        I.check(not log and sorted(os.listdir(I.tmp)) == before, 'nothing written')
    finally:
        os.chdir(wd)
    I.reach('refuse')


def c_merge(t):
    c = []
    N = (('diam', 'diam'), ('diam', 'scc'), ('scc', 'diam'), ('scc', 'scc'))
    for i, ks in enumerate(N):
        for na, nb in ((1, 1), (1, 2)):
            for fr in ((1, 1), (0, 1), (1, 0)):
                c.append(dict(files=[('b', ks[0], na, fr[0]), ('a', ks[1], nb, fr[1])], want='a_b.diam'))
        for per in ((0, 0), (0, 1), (1, 0)):
            if 'scc' in ks:
                c.append(dict(files=[('x', ks[0], 1, 1), ('y', ks[1], 1, 1)], per=per, want='x_y.diam'))
        c.append(dict(files=[('d/b', ks[0], 1, 1), ('e f/a', ks[1], 1, 1)], want='a_b.diam'))
        c.append(dict(files=[('a.v1', ks[0], 1, 1), ('b', ks[1], 1, 1)], want='a.v1_b.diam'))
        for out, want in (('m', 'm.diam'), ('m.diam', 'm.diam'), ('x.1', 'x.1.diam'), ('a b', 'a b.diam')):
            c.append(dict(files=[('a', ks[0], 1, 1), ('b', ks[1], 1, 0)], out=out, want=want))
    c += [dict(files=[('a', 'diam', 1, 1), ('c', 'scc', 1, 0), ('b', 'diam', 1, 1)], want='a_b_c.diam'),
          dict(files=[('x/a', 'scc', 1, 1), ('y/a', 'scc', 1, 1), ('z/a', 'scc', 1, 1)], want='a_a_a.diam', per=(1, 0, 1))]
    if t != 'quick':
        c += [dict(files=[('a', k1, 2, 1), ('b', k2, 1, 1), ('c', k3, 1, 0)], want='a_b_c.diam') for k1 in ('diam', 'scc') for k2 in ('diam', 'scc') for k3 in ('diam', 'scc')]
        c += [dict(files=[('a', 'scc', 2, 1), ('b', 'scc', 3, 1)], want='a_b.diam'), dict(files=[('a', 'diam', 2, 1), ('b', 'diam', 2, 1)], want='a_b.diam')]
    return c


HARNESSES = [
    Harness('merge', h_merge, c_merge, bounds='2..3 files (.diam, .scc) of 1..2 craters with all diameters 0.01..300 km, fractions, areas and perimeters'),
    Harness('refuse', h_refuse, lambda t: [dict(files=f, out=o) for f in ('a.diam', 'a.diam s.stat', 's.stat b.diam', 's.stat s.stat', '"a.diam"') for o in (None, 'm', 'a')], bounds='single files and binned files'),
]
ASSUMPTIONS = ['numbers in files are shortest decimal forms, which read back as the same value; counts are not buffered ones (reference areas instead of fractions)']

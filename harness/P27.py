"""P27: the summary table has one correct row per age estimate; the sequence table beside it."""
import csv
import inspect
import io
import math
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.util import abs_le


def near(I, x, y, r):
    return abs_le(I, x / y - 1., r)


HEAD = ['Name', 'Area', 'Binning', 'd_min', 'd_max', 'Method', 'Resurf', 'N', 'N_event', 'Sort_order', 'Age', 'Age-', 'Age+', 'A0', 'a0', 'a0-', 'a0+']
FITS = ('c-fit', 'd-fit')
AGES = FITS + ('poisson', 'b-poisson')
PF = [-2., -3., .4, .1]


def bare(s):
    return s[1:-1] if len(s) > 1 and s[0] == s[-1] == '"' else s


def fields(I, line):
    """fields of a line of comma-separated text, with quotes resolved"""
    if isinstance(line, str) and type(line).__name__ != 'SymStr':
        return next(csv.reader(io.StringIO(line, newline='')))
    out, cur, inq = [], [], False
    cells = list(line)
    i = 0
    is_ = lambda c, x: type(c).__name__ != 'SymStr' and c == x
    while i < len(cells):
        c = cells[i]
        if inq:
            if is_(c, '"'):
                if i + 1 < len(cells) and is_(cells[i + 1], '"'):
                    cur.append(c)
                    i += 1
                else:
                    inq = False
            else:
                cur.append(c)
        elif is_(c, '"') and not cur:
            inq = True
        elif is_(c, ','):
            out.append(cur)
            cur = []
        else:
            cur.append(c)
        i += 1
    out.append(cur)
    r = []
    for f in out:
        s = ''
        for c in f:
            s = s + c
        r.append(s)
    return r


def stubs(I, plots):
    """production and chronology functions whose fits and ages are free values"""
    np = I.np
    pf = I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': list(PF)}]}, 'x')
    cf = I.cst.Chronologyfn({'chronology': [{'name': 'y', 'coefficients': [5.44e-14, 6.93, 0., 8.38e-4]}]}, 'y')
    pf.fit = lambda p, *a, **k: list(plots[p['who']]['a0'])
    cf.t = lambda a0=None, n1=None: .8 * a0 + 4.5 if a0 is not None else .8 * np.log10(n1) + 4.5
    cf.a0 = lambda t: np.array([(e - 4.5) / .8 for e in t]) if hasattr(t, '__len__') else (t - 4.5) / .8
    return pf, cf


def density(I, a0, d):
    x = math.log10(d)
    return 10 ** (a0 + (sum(c * x ** i for i, c in enumerate(PF) if i)))


class Count(Any):
    def getplotdata(self, presentation, binning, *a, **k):
        p = self.plot
        self.seen.append((presentation, binning))
        lo, hi = p['bins'] if not k.get('resurfacing') else (p['low'], p['bins'][1])
        return {'who': p['i'], 'n': p['n'], 'n_event': p['ev'], 'bin_range': (lo, hi), 'd': None, 'y': None, 'err': None, 'presentation': presentation}

    def decode_range(self, *a, **k):
        return list(self.plot['range'])


def estimates(I, c):
    plots = []
    np = I.np
    for i, q in enumerate(c['plots']):
        a = I.real(f'a{i}', -5., -1.)
        dn, up = I.real(f'dn{i}', 0., .5), I.real(f'up{i}', 0., .5)
        lo, hi = I.real(f'lo{i}', .01, .5), I.real(f'hi{i}', .6, 5.)
        p = dict(i=i, type=q[0], resurf=q[1], name=q[2], n=I.int(f'n{i}', 0, 9999) if not q[3] else I.real(f'n{i}', 0., 99.), ev=I.int(f'ev{i}', 0, 9999), a0=[a, a - dn, a + up],
                 range=[lo, hi], bins=(lo * .8, hi * 1.25), low=.001, area=I.real(f'area{i}', .1, 1e6), src=q[4] if len(q) > 4 else f'dir/s{i}.diam')
        p['t'] = [.8 * e + 4.5 for e in p['a0']]
        plots.append(p)
    return plots


def make(I, c, plots, **k):
    np = I.np
    pf, cf = stubs(I, plots)
    if any(p['type'] not in FITS for p in plots):
        pf.range = [1e-3, 1e3]
    cps = []
    for p in plots:
        cc = Count(plot=p, seen=[], filename=p['src'], area=p['area'], perimeter=3., n_sigma=None, prebinned=False, buffered=False, binning='x2')
        cp = I.cst.Craterplot(cratercount=cc, source=p['src'], name=p['name'], type=p['type'], resurf=p['resurf'], binning=['pseudo-log', 'x2', 'root-2'][p['i'] % 3], hide=int(c.get('hide') == p['i']))
        cps.append(cp)
    s = I.cst.Craterplotset(craterplot=cps, cf=cf, pf=pf, ref_diameter=c.get('ref', 1.), mu=c.get('mu', 0), **k)
    return s, cps


class Pdf:
    def __init__(self, p):
        self.p, self.k = p, p['n']

    def median1sigma(self, *a, **k):
        return list(self.p['t'])


def recorder(I, real, tag, seen):
    sig = inspect.signature(getattr(real, '__wrapped__', real))

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        seen.append(dict(b.arguments))
        return f'{tag}{len(seen) - 1}'
    return f


def run_table(I, c, plots, s, f_out=None):
    rec = {'age': [], 'sci': [], 'rng': []}
    with Patch(I.cst, str_age=recorder(I, I.cst.str_age, 'age', rec['age']), Craterpdf=lambda pf, cf, cc, r, *a, **k: Pdf(cc.plot)), \
            Patch(I.gm, scientific_notation=recorder(I, I.gm.scientific_notation, 'sci', rec['sci']), diameter_range=recorder(I, I.gm.diameter_range, 'rng', rec['rng'])):
        I.opaque_numbers()
        return s.create_summary_table(*([f_out] if f_out else [])), rec


def num(I, text, want, digits, label):
    """the number printed to so many significant digits"""
    v = I.tonum(text)
    I.check(abs_le(I, v / want - 1., .51 * 10. ** (1 - digits)) if digits else abs_le(I, v - want, 1e-9), label)


def h_table(I):
    c = I.case
    plots = estimates(I, c)
    s, cps = make(I, c, plots)
    st, rec = run_table(I, c, plots, s)
    want = [p for p in plots if p['type'] in AGES]
    if not want:
        I.check(not st, 'no table without estimates')
        I.reach('table')
        return
    lines = st.split('\n')
    heads = [i for i, l in enumerate(lines) if type(l) is str and l.startswith('Name')]
    I.check(len(heads) == 1, 'one heading')
    head = lines[heads[0]].split(',')
    rows = [fields(I, l) for l in lines[heads[0] + 1:] if len(l)]
    I.check(len(rows) == len(want), 'one row per estimate')
    ref = f'N({c.get("ref", 1.):0g})'
    low = [h.lower() for h in head]
    col = lambda h, n=0: [i for i, e in enumerate(low) if e == h.lower()][n]
    I.check(all(len(r) in (len(head), len(head) + 1) for r in rows) and len({len(r) for r in rows}) == 1, 'columns of every row')
    for r in rows:
        for e in r[len(head):]:
            I.check(not str(e).strip() if type(e) is str else False, 'nothing beyond the headed columns')
    order = []
    for r, p in zip(rows, want):
        name = bare(p['name']) or p['src'].split('/')[-1].rsplit('.', 1)[0]
        I.check(r[col('name')] == name, 'own name')
        I.check(r[col('source')] == p['src'], 'own source')
        num(I, r[col('area')], p['area'], 5, 'own area')
        I.check(r[col('binning')] == ['pseudo-log', 'x2', 'root-2'][p['i'] % 3], 'own binning')
        I.check(r[col('method')] == p['type'], 'own method')
        I.check(str(int(I.tonum(r[col('resurf')]))) == str(p['resurf']), 'own resurfacing')
        R = p['bins'] if p['type'] in FITS and p['resurf'] != 1 else p['range']
        num(I, r[col('d_min')], R[0], 2, 'own diameter range')
        num(I, r[col('d_max')], R[1], 2, 'own diameter range')
        num(I, r[col('n')], p['n'], 0, 'own crater number')
        num(I, r[col('n_event')], p['ev'] if p['type'] in FITS else p['n'], 0, 'own event number')
        for k, h in enumerate(('Age', 'Age-', 'Age+')):
            num(I, r[col(h)], p['t'][k], 3, 'own age with limits')
        for k, h in enumerate(('a0', 'a0-', 'a0+')):
            num(I, r[col(h)], p['a0'][k], 4, 'own constant term with limits')
        N = [density(I, e, c.get('ref', 1.)) for e in p['a0']]
        for k, h in enumerate((ref, ref + '-', ref + '+')):
            num(I, r[col(h)], N[k], 3, 'own density at the reference diameter with limits')
        order.append(int(I.tonum(r[col('sort_order')])))
        # formatted values
        g = lambda kind, text: rec[kind][int(text[3:])]
        eq = lambda a, b: abs_le(I, a - b, 1e-9)
        d = g('rng', r[col('range')])['d']
        I.check(I.all([eq(d[0], R[0]), eq(d[1], R[1])]), 'formatted range')
        for n, ml in ((1, True), (2, False)):
            a = g('age', r[col('Age', n)])
            I.check(I.all([eq(a['age'], p['t'][0]), eq(a['e1'], p['t'][2] - p['t'][0]), eq(a['e2'], p['t'][0] - p['t'][1])]), 'formatted age')
            I.check(bool(a['MathML']) == ml and bool(a['mu']) == bool(c.get('mu', 0)), 'kind of formatted age')
            b = g('sci', r[col(ref, n)])
            # density, upper and lower value
            I.check(I.all([near(I, b['v'], N[0], 1e-9), near(I, b['e1'], N[2], 1e-9), near(I, b['e2'], N[1], 1e-9)]), 'formatted density')
            I.check(bool(b['MathML']) == ml and b['unit'] == 'km-2', 'kind of formatted density')
    I.check(sorted(order) == list(range(len(want))), 'sort order is a ranking')
    for i, p in enumerate(want):
        for j, q in enumerate(want):
            if i != j:
                I.check(I.imp(p['t'][0] > q['t'][0], order[i] < order[j]), 'sort order by decreasing age')
    I.reach('table')


def h_file(I):
    """the table in the file is the table returned"""
    c = I.case
    plots = estimates(I, c)
    s, cps = make(I, c, plots)
    got = {}

    def write(f, text, *a, **k):
        got[str(f)] = (text, a, k)
    with Patch(I.gm, write_textfile=write):
        st, rec = run_table(I, c, plots, s, f_out='out/t.csv')
    I.check(list(got) == ['out/t.csv'], 'written to the named file')
    I.check(got['out/t.csv'][0] == st, 'the file holds the table')
    I.reach('file')


def h_again(I):
    """a second table after changed settings"""
    c = I.case
    plots = estimates(I, c)
    s, cps = make(I, c, plots)
    st, _ = run_table(I, c, plots, s)
    st2, _ = run_table(I, c, plots, s)
    a, b = [fields(I, l) for l in st.split('\n')], [fields(I, l) for l in st2.split('\n')]
    I.check(len(a) == len(b), 'same rows')
    for x, y in zip(a[3:], b[3:]):
        I.check(len(x) == len(y), 'same columns')
        for k, (u, v) in enumerate(zip(x, y)):
            if k in (1, 3, 4, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18):
                u, v = I.tonum(u), I.tonum(v)
                I.check(abs_le(I, u - v, 1e-9) if k in (7, 8) else near(I, u, v, .11 if k in (3, 4) else .021), 'same values')
            elif k < 20:
                I.check(u == v, 'same values')
    I.reach('again')


def c_table(t):
    c = []
    K = [('d-fit', 0, 'A', 0), ('c-fit', 0, '', 0), ('poisson', 0, 'C d', 0), ('b-poisson', 0, '', 0), ('c-fit', 1, 'E', 1), ('d-fit', 0, '', 1, 'x/y/n.v2.scc'), ('data', 0, 'F', 0)]
    for a in K:
        c.append(dict(plots=[a], ref=1.))
        c.append(dict(plots=[a], ref=.5, mu=1))
    for i, a in enumerate(K):
        for j, b in enumerate(K):
            if i != j and (t != 'quick' or (i + 2 * j) % 3 == 0):
                c.append(dict(plots=[a, b], ref=[1., 10., .25][(i + j) % 3]))
    c += [dict(plots=[K[0], K[2], K[1]], ref=2.), dict(plots=[K[2], K[6], K[4]], ref=.1), dict(plots=[K[3], K[0], K[6]], hide=1)]
    for n in ('A, B', 'say "x"', '"q, r"', "it's", 'a,b,"c"'):
        c.append(dict(plots=[('d-fit', 0, n, 0), K[2]]))
    c.append(dict(plots=[('poisson', 0, '', 0, 'my, dir/s, 1.diam')]))
    if t != 'quick':
        c += [dict(plots=[a, b, d], ref=[1., .5][(i + j + k) % 2]) for i, a in enumerate(K) for j, b in enumerate(K) for k, d in enumerate(K) if i != j and j != k and (i + j + k) % 3 == 0]
    return c


HARNESSES = [
    Harness('table', h_table, c_table, bounds='1..3 overplots of all types; all areas, crater numbers, diameter ranges, constant terms and limits in -6.5..-0.5; reference diameters .1..10; the fits, age lookup and formatted strings are stand-ins with free values'),
    Harness('file', h_file, lambda t: [dict(plots=[('d-fit', 0, 'A', 0), ('poisson', 0, 'B', 0)])], bounds='1..2 overplots'),
    Harness('again', h_again, lambda t: [dict(plots=[('d-fit', 0, 'A', 0), ('poisson', 0, 'B', 0)]), dict(plots=[('c-fit', 0, 'A', 0), ('c-fit', 1, 'B', 0)])], bounds='2 overplots'),
]

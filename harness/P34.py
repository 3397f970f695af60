"""P34: legend entries state the counts, ranges and densities of their own overplot."""
import math
from symx.check import Harness
from harness.P24 import Patch
from harness.P27 import FITS, PF, bare, density, recorder
from harness.util import abs_le, binned_count, near, series, sum_


class Pdf:
    def __init__(self, k, t):
        self.k, self._t = k, t

    def median1sigma(self, *a, **k):
        return list(self._t)


def plots_of(I, c):
    """overplots with free counts, ranges, ages"""
    out = []
    for i, q in enumerate(c['plots']):
        b, m = q.get('bins', 'root-2'), q.get('m', 2)
        lim = series('x2' if b == 'none' else b, q.get('start', .25), m + 1)
        frac = q.get('frac', 0)
        n = [I.real(f'n{i}_{j}', .01, 9999) if frac else I.int(f'n{i}_{j}', 1, 9999) for j in range(m)]
        ev = [I.int(f'ev{i}_{j}', 1, 9999) for j in range(m)] if frac else n
        if frac == 2:
            ev = [e * 1. for e in ev]
        area, per = I.real(f'area{i}', .1, 1e6), I.real(f'per{i}', .1, 1e4)
        cc = binned_count(I, lim[:-1], lim[-1], n, ev, area, b, filename=q.get('src', f'd/s{i}_CRATER.diam'))
        cc.prebinned, cc.buffered = int(q.get('pre', 0)), bool(q.get('buffered', 0))
        cc.perimeter = per if q.get('per', 1) else None
        cc.n_sigma = None
        r = q.get('range')
        if r == 'free':
            r = [I.real(f'lo{i}', .01, .5), I.real(f'hi{i}', .6, 5.)]
        elif r is None:
            r = [0., math.inf]
        else:
            r = [0. if r[0] is None else lim[r[0]], math.inf if r[1] is None else lim[r[1]]]
        a = I.real(f'a{i}', -5., -1.)
        a0 = [a, a - I.real(f'dn{i}', 0., .5), a + I.real(f'up{i}', 0., .5)]
        cp = I.cst.Craterplot(cratercount=cc, source=cc.filename, name=q.get('name', ''), type=q['type'], binning=b, resurf=q.get('resurf', 0))
        cp.range = list(r)
        out.append(dict(q, i=i, cp=cp, cc=cc, n=n, ev=ev, lim=lim, r=r, a0=a0, t=[.8 * e + 4.5 for e in a0], area=area, per=per, bins=b))
    return out


def functions(I, cur):
    np = I.np
    pf = I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': list(PF)}]}, 'x')
    cf = I.cst.Chronologyfn({'chronology': [{'name': 'y', 'coefficients': [5.44e-14, 6.93, 0., 8.38e-4]}]}, 'y')
    pf.range = [1e-4, 1e4]
    pf.fit = lambda p, *a, **k: list(cur[0]['a0'])
    cf.t = lambda a0=None, n1=None: .8 * a0 + 4.5 if a0 is not None else .8 * np.log10(n1) + 4.5
    cf.a0 = lambda t: np.array([(e - 4.5) / .8 for e in t]) if hasattr(t, '__len__') else (t - 4.5) / .8
    return pf, cf


def after(text, head):
    """what follows the heading"""
    for c in head:
        if not text or type(text[0]).__name__ == 'SymStr' and len(text[0]) == 0 or not text[0] == c:
            return None
        text = text[1:]
    return text


def count_ok(I, text, p, n, ev):
    """the crater number entry"""
    buf = p['cc'].buffered or p['type'] == 'b-poisson'
    tail = ' craters' + (' (buffered)' if buf else '')
    I.check(len(text) > len(tail) and text[-len(tail):] == tail, 'crater number is labelled')
    body = text[:-len(tail)]
    if p['cc'].buffered:
        I.check(abs_le(I, I.tonum(body) - ev, .0501), 'own event number')
        return
    parts = body.split(' (of ')
    if len(parts) == 1:
        v = I.tonum(body)
        I.check(I.all([n - ev < .0011, ev - n < .0011]), 'event number given when it differs')
        I.check(abs_le(I, v / n - 1., 5.1e-6) if p['type'] in FITS else abs_le(I, v - n, 5.1e-6 * n), 'own crater number')
    else:
        I.check(len(parts) == 2 and parts[1][-1:] == ')', 'form of the event number')
        I.check(I.nt(I.all([n - ev < .00099, ev - n < .00099])), 'event number only when it differs')
        I.check(abs_le(I, I.tonum(parts[0]) - n, .0501), 'own crater number')
        I.check(abs_le(I, I.tonum(parts[1][:-1]) - ev, .0501), 'own event number')


def selected(p):
    """bins whose centre is inside the range"""
    mid = [math.sqrt(x * y) for x, y in zip(p['lim'], p['lim'][1:])]
    if p['r_free']:
        return list(range(len(mid)))
    return [j for j, m in enumerate(mid) if p['r'][0] < m < p['r'][1]]


def entries(I, c, p, s, rec, label):
    """the legend text items are exactly those requested"""
    leg = c['legend']
    seq = c.get('pres', 'cumulative') == 'sequence'
    want = []
    if p['type'] == 'data':
        want += [k for k in 'nap' if k in leg and (k != 'p' or p['cc'].perimeter is not None)]
    else:
        want += [k for k in 'Aa' if seq and k in leg] + [k for k in 'crN' if k in leg]
    I.check(len(label) == len(want), 'exactly the requested items')
    g = lambda kind, text: rec[kind][int(text[3:])]
    eq = lambda a, b: near(I, a, b) if not (isinstance(b, float) and math.isinf(b)) else a == b
    p['r_free'] = p.get('range') == 'free'
    q = selected(p)
    fit = p['type'] in FITS
    n = sum_([p['n'][j] for j in q]) if fit else p['k']
    ev = sum_([p['ev'][j] for j in q]) if fit else p['k']
    for k, text in zip(want, label):
        if k == 'n':
            I.check(text == (bare(p['name']) if p.get('name') else f's{p["i"]}'), 'own name')
        elif k == 'a':
            a = g('sci', text)
            I.check(I.all([eq(a['v'], p['area']), a['e1'] is None]) if I.sym else eq(a['v'], p['area']) and a['e1'] is None, 'own area')
            I.check(a['unit'] == 'km2', 'unit of the area')
        elif k == 'p':
            I.check(text[-3:] == ' km', 'unit of the perimeter')
            I.check(eq(g('sci', text[:-3])['v'], p['per']), 'own perimeter')
        elif k == 'A':
            a = g('age', text)
            I.check(I.all([eq(a['age'], p['t'][0]), abs_le(I, a['e1'] - (p['t'][2] - p['t'][0]), 1e-9), abs_le(I, a['e2'] - (p['t'][0] - p['t'][1]), 1e-9)]), 'own age with limits')
        elif k == 'c':
            count_ok(I, text, p, n, ev)
        elif k == 'r':
            d = g('rng', text)['d']
            R = list(p['r'])
            if fit or p['cc'].prebinned:
                R = [p['lim'][0] if R[0] == 0 else R[0], p['lim'][-1] if R[1] == math.inf else R[1]]
            I.check(I.all([I.any([abs_le(I, d[0], 0.), eq(d[0], R[0])]) if R[0] == 0 else near(I, d[0], R[0], 1e-6), d[1] == R[1] if R[1] == math.inf else near(I, d[1], R[1], 1e-6)]), 'own diameter range')
        elif k == 'N':
            head = f'N({c.get("ref", 1.):0g})='
            I.check(text[:len(head)] == head, 'density at the reference diameter')
            b = g('sci', text[len(head):])
            N = [density(I, e, c.get('ref', 1.)) for e in p['a0']]
            for x, y in ((b['v'], N[0]), (b['e1'], N[2]), (b['e2'], N[1])):
                I.check(abs_le(I, x / y - 1., 1e-9), 'own density with limits')
            I.check(b['unit'] == 'km-2', 'unit of the density')


def h_label(I):
    c = I.case
    cur = [None]
    pl = plots_of(I, c)
    pf, cf = functions(I, cur)
    s = I.cst.Craterplotset(craterplot=[p['cp'] for p in pl], cf=cf, pf=pf, ref_diameter=c.get('ref', 1.), legend=c['legend'], presentation=c.get('pres', 'cumulative'))
    rec = {'age': [], 'sci': [], 'rng': []}
    for p in pl:
        p['k'] = I.int(f'k{p["i"]}', 0, 9999)
    I.opaque_numbers()
    with Patch(I.cst, str_age=recorder(I, I.cst.str_age, 'age', rec['age']), Craterpdf=lambda *a, **k: Pdf(cur[0]['k'], cur[0]['t'])), \
            Patch(I.gm, scientific_notation=recorder(I, I.gm.scientific_notation, 'sci', rec['sci']), diameter_range=recorder(I, I.gm.diameter_range, 'rng', rec['rng'])):
        for p in pl:
            cur[0] = p
            if p['type'] != 'data':
                p['cp'].calculate_age(s)
        labels = [p['cp'].make_legend_label(s) for p in pl]
        for p, l in zip(pl, labels):
            if p['type'] in FITS or p['type'] == 'data' or c.get('zero', 1):
                entries(I, c, p, s, rec, l)
    I.reach('label')


def c_label(t):
    c = []
    D = dict
    ages = [D(type='d-fit'), D(type='c-fit', range=[0, 2]), D(type='d-fit', range=[1, 3], m=3), D(type='c-fit', range=[None, 1]), D(type='poisson'), D(type='poisson', range='free'), D(type='b-poisson', range='free'),
            D(type='d-fit', frac=1, m=1), D(type='c-fit', frac=2, range=[0, 1]), D(type='c-fit', frac=2, pre=1), D(type='poisson', pre=1), D(type='d-fit', buffered=1, frac=1), D(type='c-fit', resurf=1, range=[1, 3], m=3),
            D(type='d-fit', bins='pseudo-log', start=.8, m=3, range=[None, 2]), D(type='c-fit', bins='10/decade', range=[1, None], m=3), D(type='c-fit', bins='none', m=2), D(type='poisson', range='free', frac=1)]
    for i, a in enumerate(ages):
        for leg in ('crN', 'fnacr', 'N', 'r', 'c', 'a', '0', 'rcaNf'):
            if a['type'] == 'b-poisson' and 'c' in leg and 0:
                continue
            if t != 'quick' or leg == 'crN' or (i + len(leg)) % 3 == 0:
                c.append(dict(plots=[a], legend=leg, ref=[1., .1, 20.][(i + len(leg)) % 3]))
        c.append(dict(plots=[a], legend='fAcraN'[i % 4:], pres='sequence', ref=.5))
    data = [D(type='data', name='A b'), D(type='data'), D(type='data', per=0), D(type='data', frac=1, src='d/s0.scc'), D(type='data', src='d.x/CRATER_s0.diam')]
    for a in data:
        for leg in ('fnacr', 'n', 'na', 'ap', 'pan', 'crN', '0', 'anpcrN'):
            c.append(dict(plots=[D(a)], legend=leg))
    pairs = [(ages[0], ages[5]), (ages[7], data[0]), (data[1], ages[8]), (ages[5], ages[2]), (ages[1], ages[4])]
    for a, b in pairs:
        c.append(dict(plots=[D(a), D(b)], legend='napcrN', ref=2.))
    return c


HARNESSES = [Harness('label', h_label, c_label, bounds='1..2 overplots of every type with 2..3 bins; all counts, areas, constant terms with limits; free or bin-aligned or unconstrained ranges; 8 legend settings; reference diameters .1..20')]

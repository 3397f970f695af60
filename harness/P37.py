"""P37: every overplot is drawn at its own values."""
import inspect
import math
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.util import abs_le

PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']
FITS, AGES = ('c-fit', 'd-fit'), ('c-fit', 'd-fit', 'poisson', 'b-poisson')
COLOURS = ['red', 'lime', 'blue', 'cyan']
TY = dict(zip(('data',) + AGES, range(5)))


# ---------------------------------------------------------------- recording
SIG = {'text': ('x', 'y', 's'), 'annotate': ('text', 'xy', 'xytext'), 'fill_between': ('x', 'y1', 'y2'), 'fill_betweenx': ('y', 'x1', 'x2'),
       'bar': ('x', 'height', 'width', 'bottom'), 'scatter': ('x', 'y'), 'errorbar': ('x', 'y', 'yerr', 'xerr'),
       'set_xlabel': ('xlabel',), 'set_ylabel': ('ylabel',), 'set_title': ('label',), 'set_xticks': ('ticks', 'labels'),
       'set_yticks': ('ticks', 'labels'), 'set_xticklabels': ('labels',), 'set_yticklabels': ('labels',), 'add_axes': ('rect',),
       'imshow': ('X', 'cmap'), 'colorbar': ('mappable', 'cax'), 'set_xscale': ('value',), 'set_yscale': ('value',), 'set_aspect': ('aspect',),
       'Polygon': ('xy',), 'add_patch': ('p',), 'legend': ('handles', 'labels'), 'set_xlim': ('left', 'right'), 'set_ylim': ('bottom', 'top'),
       'set_label': ('label',), 'set_visible': ('b',), 'vlines': ('x', 'ymin', 'ymax'), 'hlines': ('y', 'xmin', 'xmax')}
SAME = [('lw', 'linewidth'), ('ls', 'linestyle'), ('c', 'color'), ('ha', 'horizontalalignment'), ('va', 'verticalalignment'), ('ms', 'markersize'),
        ('ec', 'edgecolor'), ('fc', 'facecolor'), ('size', 'fontsize')]


def canonical(n, a, k):
    """the arguments of a drawing call by place and by name, whichever way they were given"""
    a, k = list(a), dict(k)
    if n in ('set_xlim', 'set_ylim'):
        if len(a) == 1 and hasattr(a[0], '__len__') and len(a[0]) == 2:
            a = [a[0][0], a[0][1]]
        for new, old in zip(SIG[n], (n[4] + 'min', n[4] + 'max')):
            if old in k:
                k[new] = k.pop(old)
    names = SIG.get(n, ())
    for i, name in enumerate(names):
        if i < len(a):
            k.setdefault(name, a[i])
    for name in names[len(a):]:
        if name not in k:
            break
        a.append(k[name])
    for x, y in SAME:
        if n == 'scatter' and x == 'c':
            continue
        if x in k:
            k.setdefault(y, k[x])
        elif y in k:
            k[x] = k[y]
    return tuple(a), k


class Node:
    """stands for a matplotlib object; every call is noted with the object it was made on"""

    def __init__(self, I, log, owner=None, name=''):
        self.__dict__.update(_I=I, _log=log, _owner=owner, _n=name, _kids={})

    def __getattr__(self, k):
        if k.startswith('__') or k == 'tolist':
            raise AttributeError(k)
        if k not in self._kids:
            self._kids[k] = Node(self._I, self._log, self, k)
        return self._kids[k]

    def __setattr__(self, k, v):
        pass

    def __getitem__(self, k):
        return Node(self._I, self._log, self, '[]')

    def __setitem__(self, k, v):
        pass

    def __add__(self, o):
        return self

    def __call__(self, *a, **k):
        if self._n == 'transform':
            return self._I.np.array([e for e in a[0]])
        r = Node(self._I, self._log, self, '()')
        a, k = canonical(self._n, a, k)
        self._log.append((self._owner, self._n, a, k, r))
        if self._n == 'get_legend_handles_labels':
            own = [e for e in self._log if e[0] is self._owner and e[1] in ('plot', 'scatter', 'errorbar') and e[3].get('label') is not None]
            return [e[4] for e in own], [e[3]['label'] for e in own]
        if self._n in ('get_texts', 'get_xticklabels'):
            return []
        if self._n == 'get_extents':
            return Any(height=1., width=2.)
        if self._n == 'plot':
            return [r]
        return r


def seq(v):
    return list(v) if hasattr(v, '__len__') or hasattr(v, 'tolist') else [v]


def on(log, ax, *names):
    return [e for e in log if e[0] is ax and e[1] in names]


def xy(e):
    a, k = e[2], e[3]
    return seq(a[0] if a else k['x']), seq(a[1] if len(a) > 1 else k['y'])


def same(I, a, b, tol=1e-7):
    if len(a) != len(b):
        return False
    return I.all([abs_le(I, x - y, tol * (1 + (abs(y) if isinstance(y, float) else 0.))) for x, y in zip(a, b)])


def samerel(I, a, b):
    """positive values agree"""
    return len(a) == len(b) and I.all([abs_le(I, x / y - 1., 1e-7) for x, y in zip(a, b)])


def curve(e):
    return e[3].get('color', e[3].get('c'))


# ---------------------------------------------------------------- stand-ins for what is drawn
class Pf:
    """production function: 10**a0 * d**-slope"""

    name, range = 'PFname', [1e-4, 1e4]

    def __init__(self, I):
        self.I, self.fits = I, []

    def y(self, pres, d, a0):
        s = {'cumulative': 2., 'differential': 3., 'R-plot': .5, 'Hartmann': 2.5}[pres]
        return 10 ** a0 * d ** -s

    def evaluate(self, presentation, d, a0=None):
        a0 = -3. if a0 is None else a0
        return self.I.np.array([self.y(presentation, x, a0) for x in d]) if hasattr(d, '__len__') else self.y(presentation, d, a0)

    def C(self, d, a0=None):
        return self.evaluate('cumulative', d, a0)

    def getplotdata(self, presentation, a0=None, range=None):
        r = [.001, 1000.] if range is None else [e for e in range]
        d = [min(max(e, 1e-4), 1e4) if not hasattr(e, 'z') else e for e in r]
        d = [d[0], math.sqrt(d[0] * d[1]), d[1]]
        return dict(d=self.I.np.array(d), y=self.evaluate(presentation, d, a0), presentation=presentation)

    def getisochron(self, presentation, a0, ef=None):
        d = [.01, .14, 10., 100.] if ef is None else [.05, .14, 10., 100.]
        return dict(d=self.I.np.array(d), y=self.evaluate(presentation, d, a0), presentation=presentation)

    def fit(self, p, *a, **k):
        i = p['tag']['id']
        return self.a0(i, p['tag'])

    def a0(self, i, tag):
        b = self.I.case_terms[i]
        e = .25 if tag['presentation'] == 'differential' else 0.
        e += .5 if tag['resurfacing'] else 0.
        return [b + e, b + e - .125, b + e + .0625]


class Cf:
    name = 'CFname'

    def __init__(self, I):
        self.I = I

    def t(self, a0=None, n1=None):
        return a0 * .5 + 4.

    def a0(self, t):
        return self.I.np.array([(e - 4.) / .5 for e in t]) if hasattr(t, '__len__') else (t - 4.) / .5

    def N1(self, t):
        return 2. + t * 3.

    def phi(self, t):
        return 5. + t * .25

    def getplotdata(self, linear=False, phi=False, **k):
        t = self.I.np.array([-.3, -.2, -.1, 4.6])
        return t, self.I.np.array([self.phi(e) if phi else self.N1(e) for e in t])


class Count:
    """crater count: plot data that tell what was asked for"""

    buffered = prebinned = False
    n_sigma = perimeter = None
    diam = [1., 2.]

    def __init__(self, I, i, n):
        self.I, self.i, self.n, self.filename, self.area = I, i, n, f'd/s{i}.diam', 10. + i
        self.v = [I.real(f'y{i}_{j}', .5, 2.) for j in range(n)]
        self.w = [I.real(f'd{i}_{j}', .01, 90.) for j in range(n)]
        self.e = [I.real(f'e{i}_{j}', .01, .4) for j in range(n)]
        self.sig = inspect.signature(I.cst.Cratercount.getplotdata)
        self.binned = dict(d_min=I.np.array([.5, 1.]), d_max=I.np.array([1., 2.]))

    def decode_range(self, r, binning, snap):
        return self.I.np.array([float(e) for e in r])

    def generate_bins(self, b, r, *a, **k):
        return self.I.np.array([float(r[0]), float(r[1])])

    def getplotdata(self, *a, **k):
        b = self.sig.bind(self, *a, **k)
        b.apply_defaults()
        q = dict(b.arguments)
        q.pop('self')
        q['id'] = self.i
        q['resurfacing'] = bool(q['resurfacing'])
        q['showall'] = bool(q['showall'])
        f = self.factor(q)
        np = self.I.np
        return dict(d=np.array([x * f for x in self.w]), y=np.array([x * f * 2. for x in self.v]), err=np.array([x * f * 3. for x in self.e]), n=7. + self.i, n_event=7. + self.i, bin_range=[.5, 2.], presentation=q['presentation'], tag=q)

    @staticmethod
    def factor(q):
        pres = (PRES + ['incremental']).index(q['presentation'])
        bins = ['none', 'root-2', 'x2', '10/decade', 'pseudo-log'].index(q['binning'])
        lo, hi = (0., math.inf) if q['range'] is None else [float(e) for e in q['range']]
        f = 1. + .001 * pres + .01 * bins + .1 * (q['resurfacing'] + 2 * (q['showall'] and q['resurfacing'])) + .5 * (q['pf'] is not None)
        return f + lo * .0001 + (0. if hi == math.inf else hi * .00003)


class Pdf:
    made = []
    k = 3

    def __init__(self, pf, cf, cc, r, *a, **k):
        self.cc, self.r = cc, [float(e) for e in r]
        self.b = cc.I.case_terms[cc.i] * .5 + 4.
        Pdf.made.append(self)

    def median1sigma(self, *a, **k):
        return [self.b, self.b - .1, self.b + .3]

    def offset(self, left):
        return .1

    def plot(self, ax, **k):
        self.drawn = (ax, k)

    def violin_plot(self, ax, *a, **k):
        self.__dict__.setdefault('violins', []).append((ax, a, k))


def build(I, c):
    I.case_terms = [I.real(f'a{i}', -3., -1.) for i in range(len(c['plots']))]
    pf, cf = Pf(I), Cf(I)
    cps = []
    for i, q in enumerate(c['plots']):
        cc = Count(I, i, 2 + i)
        cps.append(I.cst.Craterplot(cratercount=cc, source=cc.filename, type=q['type'], binning=q.get('bins', 'root-2'), range=list(q.get('range', [0., math.inf])), psym=q.get('psym', i + 1), colour=COLOURS[i],
                                    hide=q.get('hide', 0), error_bars=q.get('err', 0), isochron=q.get('iso', 0), show_age=q.get('age', 1), age_left=q.get('left', 0), resurf=q.get('resurf', 0), resurf_showall=q.get('all', 0),
                                    offset_age=q.get('off', [0, 0]), name=q.get('name', '')))
    ef = Any(name='EFname', getplotdata=lambda p: dict(d=I.np.array([.2, 2., 20., 30., 40., 50., 60.]), y=I.np.array([5., 4., 3., 2., 1., .5, .25]))) if c.get('ef') else None
    ep = None
    s = I.cst.Craterplotset(craterplot=cps, cf=cf, pf=pf, ef=ef, ep=ep, presentation=c['pres'], legend=c.get('legend', 'narN'), print_dimensions=c.get('dims', '7.5x7.5'), style='natural', title='a|b', isochrons=c.get('isochrons'), ref_diameter=c.get('ref', 1.), ra_show=0)
    s.xrange, s.yrange = I.np.array([-1., 2.]), I.np.array([-6., 1.])
    if c['pres'] == 'sequence':
        s.xrange, s.yrange = list(c.get('xr', [4., .1])), [0., 0.]
    if c['pres'] in ('chronology', 'rate'):
        s.xrange, s.yrange = I.np.array([4.5, 0.]), I.np.array([-6., 1.])
    return s, cps


def draw(I, s):
    log, ages = [], []
    m, cpm = I.mod('craterstats.Craterplotset'), I.mod('craterstats.Craterplot')
    root = Node(I, log)
    r = lambda n: getattr(root, n)

    def str_age(t, *a, **k):
        ages.append((t, a, k))
        return f'AGE{len(ages) - 1}#'
    Pdf.made = []
    with Patch(m, plt=r('plt'), ticker=r('ticker'), mfig=r('mfig'), patheffects=r('pe'), patches=r('patches'), fm=r('fm'), Polygon=r('Polygon')), Patch(cpm, TextPath=r('TextPath'), ticker=r('ticker')), \
            Patch(I.cst, Craterpdf=Pdf, str_age=str_age), Patch(I.gm, scientific_notation=lambda v, *a, **k: 'S' + (f'{v:g}' if isinstance(v, float) else ''), diameter_range=lambda r, *a, **k: 'rng'):
        s.draw()
        labels = {}
        if s.presentation != 'sequence':
            for cp in s.craterplot:
                if drawn(s, cp):
                    labels[id(cp)] = ', '.join(cp.make_legend_label(s))
    return log, ages, labels


def drawn(s, cp):
    return not cp.hide and not (s.presentation in PRES[1:] and cp.binning == 'none')


def want(s, cp, p):
    """request for the plot data of an overplot"""
    return Count.factor(dict(presentation=p, binning=cp.binning, range=cp.range, resurfacing=bool(cp.resurf and cp.type == 'c-fit'), showall=bool(cp.resurf_showall), pf=s.pf))


def terms(s, cp):
    if cp.type in ('poisson', 'b-poisson'):
        t = Pdf.median1sigma(Any(b=s.pf.I.case_terms[cp.cratercount.i] * .5 + 4.))
        return t, [(e - 4.) / .5 for e in t]
    tag = dict(presentation='differential' if cp.type == 'd-fit' else 'cumulative', resurfacing=bool(cp.resurf and cp.type == 'c-fit'))
    a = s.pf.a0(cp.cratercount.i, tag)
    return [e * .5 + 4. for e in a], a


def h_chart(I):
    """markers, error bars, fitted curves, isochrons and ages"""
    c = I.case
    np = I.np
    s, cps = build(I, c)
    log, ages, labels = draw(I, s)
    ax = s.ax
    marks = [e for e in on(log, ax, 'plot', 'scatter') if e[3].get('ls', e[3].get('linestyle')) in ('', 'none', 'None') or e[1] == 'scatter']
    marks = [e for e in marks if curve(e) in COLOURS]
    bars = on(log, ax, 'errorbar')
    lines = [e for e in on(log, ax, 'plot') if not any(e is m for m in marks)]
    vis = [cp for cp in cps if drawn(s, cp)]
    I.check(len(marks) == len(vis), 'one series of symbols per visible overplot')
    I.check(len(bars) == sum(1 for cp in vis if cp.error_bars), 'error bars where requested')
    texts = on(log, ax, 'text')
    for cp in cps:
        cc, i = cp.cratercount, cp.cratercount.i
        m = [e for e in marks if curve(e) == cp.colour]
        if cp not in vis:
            I.check(not m, 'hidden overplots are not drawn')
            continue
        I.check(len(m) == 1, 'one series of symbols in the colour of the overplot')
        f = want(s, cp, s.presentation)
        x, y = [np.log10(e * f) for e in cc.w], [e * f * 2. for e in cc.v]
        gx, gy = xy(m[0])
        I.check(same(I, gx, x), 'symbols at the diameters of the overplot')
        I.check(same(I, gy, y), 'symbols at the densities of the overplot')
        I.check(m[0][3].get('marker') is I.cst.MARKERS[cp.psym][2]['marker'] or m[0][3].get('marker') == I.cst.MARKERS[cp.psym][2]['marker'], 'plot symbol of the overplot')
        if cp.error_bars:
            b = [e for e in bars if len(xy(e)[0]) == len(x)]
            I.check(len(b) == 1, 'error bars of the overplot')
            bx, by = xy(b[0])
            er = b[0][3].get('yerr', b[0][2][2] if len(b[0][2]) > 2 else None)
            I.check(er is not None and I.all([same(I, bx, x), same(I, by, y), same(I, seq(er), [e * f * 3. for e in cc.e])]), 'error bars are those of the points')
        if cp.type not in AGES:
            continue
        t, a = terms(s, cp)
        ln = [e for e in lines if curve(e) == cp.colour]
        I.check(len(ln) == 1, 'one fitted curve in the colour of the overplot')
        fx, fy = xy(ln[0])
        r = [max(cp.range[0] * .99, 1e-4), min(cp.range[1] * 1.01, 1e4)]
        I.check(fx[0] <= math.log10(max(cp.range[0], 1e-4)) + 1e-9 and fx[0] >= math.log10(r[0]) - .05 and fx[-1] >= math.log10(min(cp.range[1], 1e4)) - 1e-9 and fx[-1] <= math.log10(r[1]) + .05, 'curve over the range of the overplot')
        I.check(samerel(I, fy, [s.pf.y(s.presentation, 10. ** e, a[0]) for e in fx]), 'curve of the fitted constant term')
        iso = [e for e in lines if curve(e) not in COLOURS and len(xy(e)[0]) == 4]
        ok = [I.all([same(I, xy(e)[0], [math.log10(q) for q in ((.05 if s.ef else .01), .14, 10., 100.)]), samerel(I, xy(e)[1], [s.pf.y(s.presentation, q, a[0]) for q in ((.05 if s.ef else .01), .14, 10., 100.)])]) for e in iso]
        if cp.isochron:
            I.check(I.any(ok) if ok else False, 'isochron of the fitted age')
        elif not any(q.isochron for q in cps) and not c.get('isochrons'):
            I.check(not iso, 'isochrons only where requested')
        own = [e for e in texts if e[3].get('color') == cp.colour]
        I.check(len(own) == (1 if cp.show_age else 0), 'age shown where requested')
        if cp.show_age:
            e = own[0]
            st = e[2][2] if len(e[2]) > 2 else e[3].get('s')
            I.check(isinstance(st, str) and st.startswith('AGE'), 'age text')
            v = ages[int(st[3:-1])]
            vals = [v[0]] + list(v[1])
            I.check(len(vals) >= 3, 'age with its errors')
            I.check(same(I, vals[:3], [t[0], t[2] - t[0], t[0] - t[1]]), 'age and errors of the overplot')
            side = -1. if cp.age_left else 1.
            dec = 3.
            I.check(same(I, [e[2][0], e[2][1]], [fx[0] + .02 * side + cp.offset_age[0] / (dec * 20), fy[0] + .02 * side + cp.offset_age[1] / (dec * 20)]), 'age beside the start of its curve, shifted by the offset')
            I.check(e[3].get('horizontalalignment', e[3].get('ha')) == ('right' if cp.age_left else 'left'), 'age on the chosen side')
            if cp.type in ('poisson', 'b-poisson'):
                p = [p for p in Pdf.made if p.cc is cc]
                I.check(len(p) >= 1 and hasattr(cp.pdf, 'drawn'), 'probability distribution drawn')
                pa, k = cp.pdf.drawn
                I.check(pa is not ax and k.get('color') == cp.colour and cp.pdf.cc is cc, 'own distribution, on its own axes')
    I.check(len([e for e in lines if curve(e) in COLOURS]) == sum(1 for cp in vis if cp.type in AGES), 'curves of the fitted overplots only')
    # legend
    lg = on(log, ax, 'legend')
    I.check(len(lg) == 1, 'one legend')
    h = lg[0][2][0] if lg[0][2] else lg[0][3].get('handles')
    b = lg[0][2][1] if len(lg[0][2]) > 1 else lg[0][3].get('labels')
    exp = [(labels[id(cp)], cp) for cp in cps if id(cp) in labels and labels[id(cp)]]
    I.check(len(h) == len(b) == len(exp), 'one legend entry per overplot with one')
    I.check(list(b) == [e for e, _ in exp], 'legend entries in the order of the overplots')
    for g, (_, cp) in zip(h, exp):
        m = [e[4] for e in marks if curve(e) == cp.colour][0]
        g = list(g) if isinstance(g, (tuple, list)) else [g]
        I.check(any(x is m for x in g), 'legend entry with its own symbol')
        if cp.type in AGES:
            ln = [e[4] for e in lines if curve(e) == cp.colour][0]
            I.check(any(x is ln for x in g), 'legend entry with its own curve')
    I.reach('chart')


def h_functions(I):
    """equilibrium, chronology and rate curves, isochrons, function legend"""
    c = I.case
    np = I.np
    s, cps = build(I, c)
    s.legend = 'f'
    log, ages, _ = draw(I, s)
    ax = s.ax
    lines = on(log, ax, 'plot')
    if s.presentation in ('chronology', 'rate'):
        t, y = s.cf.getplotdata(phi=s.presentation == 'rate')
        N = s.pf.evaluate('cumulative', [s.ref_diameter, 1.])
        q = N[0] / N[1]
        got = [xy(e) for e in lines if len(xy(e)[0]) == 4]
        I.check(any(bool(I.all([same(I, a, seq(t)), samerel(I, b, [v * q for v in y])])) for a, b in got), 'curve for the reference diameter')
        if s.ref_diameter != 1.:
            I.check(len(got) == 2 and any(bool(I.all([same(I, a, seq(t)), samerel(I, b, seq(y))])) for a, b in got), 'curve for 1 km beside it')
            lab = [e[3].get('label') for e in lines if len(xy(e)[0]) == 4]
            for e in lines:
                if len(xy(e)[0]) == 4:
                    r = float(e[3]['label'].split('>')[1].split(' ')[0])
                    I.check(samerel(I, xy(e)[1], [v * (s.pf.evaluate('cumulative', r) / N[1]) for v in y]), 'curves labelled with their diameter')
        else:
            I.check(len(got) == 1, 'one curve')
    else:
        e7 = [e for e in lines if len(xy(e)[0]) == 7]
        I.check(len(e7) == (1 if c.get('ef') else 0), 'equilibrium curve')
        for e in e7:
            p = s.ef.getplotdata(s.presentation)
            I.check(same(I, xy(e)[0], [math.log10(v) for v in p['d']]) and same(I, xy(e)[1], seq(p['y'])), 'equilibrium curve as tabulated')
        iso = [xy(e) for e in lines if len(xy(e)[0]) == 4]
        spec = [q for q in (c.get('isochrons') or '').split(',') if q and q != 'x']
        I.check(len(iso) == len(spec), 'one line per isochron')
        tx = [e for e in on(log, ax, 'text') if len(e[2]) > 2 and str(e[2][2]).startswith('AGE')]
        shown = []
        for (x, y), q in zip(iso, spec):
            t = float(q.rstrip('ashn'))
            d = ((.05 if c.get('ef') else .01), .14, 10., 100.)
            I.check(same(I, x, [math.log10(v) for v in d]) and samerel(I, y, [s.pf.y(s.presentation, v, (t - 4.) / .5) for v in d]), 'isochron of its age')
            if 'h' not in q and 'n' not in q:
                shown.append((t, 'a' in q, 's' in q))
        got = [ages[int(e[2][2][3:-1])][0] for e in tx]
        I.check(len(got) == len(shown) and all(abs(g - q[0]) < 1e-9 for g, q in zip(got, shown)), 'ages written beside their isochrons')
        sizes = set()
        for e, (t, above, small) in zip(tx, shown):
            va = e[3].get('verticalalignment', e[3].get('va', 'baseline'))
            I.check(va in (('bottom', 'baseline') if above else ('top',)), 'age above or below its isochron as asked for')
            sizes.add((small, float(e[3].get('size', e[3].get('fontsize')))))
            x, y = e[2][0], e[2][1]
            I.check(abs_le(I, I.np.log10(y) - I.np.log10(s.pf.y(s.presentation, 10. ** float(x), (t - 4.) / .5)), .25), 'age at its isochron')
        I.check(len({q for f, q in sizes if f}) <= 1 and len({q for f, q in sizes if not f}) <= 1 and all(a < b for f, a in sizes for g, b in sizes if f and not g), 'small ages where asked for')
    tx = [e[2][2] for e in on(log, ax, 'text') if len(e[2]) > 2 and isinstance(e[2][2], str) and 'CF: ' in e[2][2]]
    I.check(len(tx) == 1 and 'CFname' in tx[0] and ('PFname' in tx[0] or s.presentation in ('chronology', 'rate') and s.ref_diameter == 1.) and ('EFname' in tx[0]) == bool(c.get('ef')), 'names of the functions')
    I.reach('functions')


def h_sequence(I):
    """rows of a sequence plot"""
    c = I.case
    s, cps = build(I, c)
    log, ages, _ = draw(I, s)
    rows = [cp for cp in cps if cp.type in AGES and not cp.hide]
    n = len(rows)
    axes = s.ax2 if s.crossover else s.ax2[:1]
    names = {}
    for e in on(log, s.ax, 'text'):
        if len(e[2]) > 2 and isinstance(e[2][2], str):
            names.setdefault(e[2][2], []).append(e)
    level = []
    for cp in rows:
        t, a = terms(s, cp)
        nm = (cp.name or f's{cp.cratercount.i}').replace('\\n', '\n').strip('"')
        I.check(len(names.get(nm, [])) == 1, 'row labelled with the name')
        y = names[nm][0][2][1]
        level.append(y)
        for ax in axes:
            if cp.type in FITS:
                f = [e for e in on(log, ax, 'fill_between') if curve(e) is not None and e[3].get('edgecolor') == cp.colour]
                I.check(len(f) == 1, 'one bar per fitted age')
                x, y1 = xy(f[0])
                y2 = seq(f[0][2][2] if len(f[0][2]) > 2 else f[0][3]['y2'])
                I.check(same(I, x, [t[1], t[2]]), 'bar between the one-sigma limits')
                I.check(all(abs((p + q) / 2 - y) < 1e-6 and abs(p - q) > 1e-4 for p, q in zip(y1, y2)), 'bar on the row of its name')
                p = [e for e in on(log, ax, 'plot') if curve(e) == cp.colour]
                I.check(len(p) == 1 and bool(same(I, xy(p[0])[0], [t[0], t[0]])), 'age marked')
                I.check(abs(sum(xy(p[0])[1]) / 2 - y) < 1e-6, 'mark on the row of its name')
            else:
                v = [q for q in getattr(cp.pdf, 'violins', []) if q[0] is ax]
                I.check(len(v) == 1 and cp.pdf.cc is cp.cratercount, 'one distribution per poisson age')
                I.check(abs(v[0][1][0] - y) < 1e-6 and v[0][2].get('color') == cp.colour, 'distribution on the row of its name')
        if 'A' in s.legend:
            tx = [e for e in on(log, s.ax, 'text') if len(e[2]) > 2 and str(e[2][2]).startswith('AGE') and abs(e[2][1] - y) < 1e-9]
            I.check(len(tx) == 1, 'age on its row')
            v = ages[int(tx[0][2][2].split('#')[0][3:])]
            I.check(same(I, ([v[0]] + list(v[1]))[:3], [t[0], t[2] - t[0], t[0] - t[1]]), 'age and errors of the row')
    for p, q in zip(level, level[1:]):
        I.check(.5 < (p - q) * (n + 1) < 1.5, 'rows from top to bottom in the order of the overplots')
    I.check(all(0 < y < 1 for y in level), 'rows inside the plot')
    for cp in cps:
        if cp not in rows:
            for ax in s.ax2:
                I.check(not [e for e in on(log, ax, 'fill_between', 'plot') if curve(e) == cp.colour or e[3].get('edgecolor') == cp.colour], 'hidden overplots are not drawn')
    I.reach('sequence')


def h_violin(I):
    """outline of a probability distribution"""
    c = I.case
    n = c['n']
    ts = [I.real('t0', .01, .2)]
    for i in range(1, n):
        ts.append(ts[-1] + I.real(f'w{i}', .01, 1.))
    P = c['pdf']
    np = I.np
    p = I.cst.Craterpdf.__new__(I.cst.Craterpdf)
    p.ts, p.pdf = np.array(ts), np.array(P)
    w = [ts[1] - ts[0]] + [b - a for a, b in zip(ts, ts[1:])]
    cum, k = [], 0.
    fr = c['cdf']
    p.cdf = np.array(fr)
    log = []
    root = Node(I, log)
    ax = root.ax
    y, w0 = .4, .1
    p.violin_plot(ax, y, w0, pt_size=9, color='red', invert=0)
    f = on(log, ax, 'fill_between')
    I.check(len(f) >= 2, 'outline and one-sigma range')

    def t_of(q):
        if q <= fr[0]:
            return ts[0]
        for i in range(n - 1):
            if q <= fr[i + 1]:
                return ts[i] + (ts[i + 1] - ts[i]) * ((q - fr[i]) / (fr[i + 1] - fr[i]))
        return ts[-1]
    for e, lo, hi in zip(f[:2], (.0001, .16), (.9999, .84)):
        x, up = xy(e)
        dn = seq(e[2][2] if len(e[2]) > 2 else e[3]['y2'])
        I.check(len(x) == len(up) == len(dn), 'outline')
        for a, b, d in zip(x, up, dn):
            k = [j for j in range(n) if a is ts[j] or bool(a == ts[j])]
            I.check(len(k) == 1, 'sampled ages')
            I.check(same(I, [b, d], [y + .9 * w0 * P[k[0]] / max(P), y - .9 * w0 * P[k[0]] / max(P)]), 'width proportional to the probability')
        i0, i1 = [j for j in range(n) if bool(ts[j] <= t_of(lo))], [j for j in range(n) if bool(ts[j] >= t_of(hi))]
        i0, i1 = (max(i0) if i0 else 0), (min(i1) if i1 else n - 1)
        got = [j for j in range(n) if any(bool(a == ts[j]) for a in x)]
        I.check(got == list(range(got[0], got[-1] + 1)), 'whole stretch')
        I.check(abs(got[0] - i0) <= 1 and abs(got[-1] - i1) <= 2, 'stretch between the limits')
    I.reach('violin')


def h_epochs(I):
    """epoch bands, lines and names"""
    c = I.case
    np = I.np
    names = ['Upper Alpha', 'Beta', 'Gamma-Low', 'Delta'][:c['n']]
    tt = [0.] + [I.real('t1', .1, .3)] + [I.real(f't{i}', i + .1, i + .9) for i in range(2, c['n'])] if c['n'] > 2 else [0., I.real('t1', .1, .3)]
    tt = tt[:c['n']]
    s, _ = build(I, dict(c, plots=[]))
    ep = I.cst.Epochs.__new__(I.cst.Epochs)
    ep.identifier = ep.name = 'EPname'
    ep.epoch, ep.time, ep.formatting = names, list(tt), ['60'] + c['fmt']
    ep.pf, ep.cf = s.pf, s.cf
    s.ep, s.legend = ep, 'f'
    log, ages, _ = draw(I, s)
    ax = s.ax
    if c['pres'] == 'sequence':
        for j, ax in enumerate(s.ax2 if s.crossover else s.ax2[:1]):
            bands = [xy(e)[0] for e in on(log, ax, 'fill_between')]
            I.check(len(bands) == len(tt) - 2, 'one band per bounded epoch')
            for b, p, q in zip(bands, tt[1:], tt[2:]):
                I.check(same(I, b, [p, q]), 'band between the limits of its epoch')
            ln = [xy(e)[0] for e in on(log, ax, 'plot')]
            I.check(len(ln) == len(tt) - 1 and all(bool(same(I, l, [t, t])) for l, t in zip(ln, tt[1:])), 'a line at each limit')
            tx = [e for e in on(log, ax, 'text')]
            lo, hi = s.t_min, s.t_max
            for e, nm in zip(tx, ['uA', 'B', 'gL', 'D']):
                I.check(e[2][2] == nm, 'short names in order')
                i = ['uA', 'B', 'gL', 'D'].index(nm)
                a, b = tt[i], tt[i + 1] if i + 1 < len(tt) else 99.
                x = e[2][0]
                if bool(a < hi) and bool(b > lo):
                    I.check(I.all([x >= a - 1e-9, x <= b + 1e-9]), 'name inside its epoch')
            I.check(len(tx) == len(names), 'every epoch named')
    elif c['pres'] in ('chronology', 'rate'):
        bands = [e for e in on(log, ax, 'fill_between')]
        I.check(len(bands) == len(tt) - 2, 'one band per bounded epoch')
        for e, p, q in zip(bands, tt[1:], tt[2:]):
            x = xy(e)[0]
            I.check(same(I, [x[0], x[-1]], [p, q]), 'band between the limits of its epoch')
        an = on(log, ax, 'annotate')
        I.check(len(an) == len(tt) - 1, 'a time at each limit')
        for e, t in zip(an, tt[1:]):
            I.check(same(I, [e[3]['xy'][0]], [t]), 'times at their limits')
            I.close(I.tonum((e[2][0] if e[2] else e[3]['text']).strip()), t, 'times of the limits', rtol=.0051 if I.sym else .051)
        tx = [e for e in on(log, ax, 'text') if e[2][2] in names]
        I.check([e[2][2] for e in tx] == names, 'every epoch named, in order')
        for i, e in enumerate(tx):
            b = tt[i + 1] if i + 1 < len(tt) else s.xrange[0]
            x = e[2][0]
            I.check(I.all([x >= tt[i] - .05, x <= b + 1e-9]), 'name inside its epoch')
    else:
        bands = on(log, ax, 'fill')
        I.check(len(bands) == len(tt) - 2, 'one band per bounded epoch')
        d = [.01, .14, 10., 100.]
        for e, p, q in zip(bands, tt[1:], tt[2:]):
            x, y = xy(e)
            I.check(same(I, x, [math.log10(v) for v in d + d[::-1]]), 'band over the isochrons')
            w = [s.pf.y(s.presentation, v, (p - 4.) / .5) for v in d] + [s.pf.y(s.presentation, v, (q - 4.) / .5) for v in d[::-1]]
            I.check(samerel(I, y, w), 'band between the isochrons of its limits')
    I.reach('epochs')


D, C, F, P, B = 'data', 'c-fit', 'd-fit', 'poisson', 'b-poisson'


def c_chart(t):
    c = []
    pres = PRES
    sets = [
        [dict(type=D, err=1), dict(type=C, range=[1., 4.], iso=1, err=0)],
        [dict(type=F, range=[.5, 8.], err=1, left=1), dict(type=D, err=1, psym=5)],
        [dict(type=P, range=[1., 10.], off=[2, 3]), dict(type=D, bins='none')],
        [dict(type=C, range=[1., 4.], resurf=1, all=1), dict(type=C, range=[.2, 1.], resurf=1, age=0), dict(type=D, err=1, hide=1)],
        [dict(type=D, bins='x2'), dict(type=B, range=[.1, 3.], bins='none', left=1, off=[-1, 2]), dict(type=D, bins='10/decade', err=1)],
        [dict(type=D), dict(type=F, range=[1., 4.], resurf=1, iso=1), dict(type=C, range=[2., 9.], resurf=0, all=1, hide=1), dict(type=D, name='x y')],
    ]
    for i, q in enumerate(sets):
        for j, p in enumerate(pres):
            for k, lg in enumerate(('narN', 'na', 'c', '', 'nr', 'fp')):
                if t != 'quick' or (i + j + k) % 4 == 0 or k == 1 and j == i % 4:
                    c.append(dict(pres=p, plots=q, legend=lg, ef=(i + j) % 2))
    return c


def c_functions(t):
    c = [dict(pres=p, plots=[], ef=e, isochrons=i) for p in PRES for e, i in ((1, '1,3s'), (0, '.1ah,3.5'), (1, None), (0, '2hs,1s,3.9has'), (0, '1a,2n,3as'), (1, '.5na,1,x,3sa,2a'))]
    c += [dict(pres=p, plots=[], ref=r) for p in ('chronology', 'rate') for r in (1., 10., .5)]
    return c


def c_sequence(t):
    c = []
    sets = [[dict(type=C), dict(type=D), dict(type=P)], [dict(type=P, name='"b\\nc"'), dict(type=F, hide=1), dict(type=C), dict(type=B)], [dict(type=F)], [dict(type=P, name='q'), dict(type=P, name='r')]]
    for i, q in enumerate(sets):
        for lg in ('A', 'cA', ''):
            for xr in ([4., .1], [4., 0.]):
                c.append(dict(pres='sequence', plots=q, legend=lg, xr=xr))
    return c


def c_violin(t):
    return [dict(n=6, pdf=[.1, .5, 1., .4, .2, .05], cdf=q) for q in ([.00001, .2, .6, .8, .95, 1.], [.00002, .4, .6, .8, .9, 1.], [.00001, .00005, .1, .5, .9, 1.])] + [dict(n=9, pdf=[0., .1, .3, .9, 1.5, .9, .2, .1, 0.], cdf=[0., .02, .1, .3, .6, .85, .95, .99995, 1.])]


def c_epochs(t):
    c = []
    for p in PRES[:2] + ['chronology', 'rate', 'sequence']:
        for n in (3, 4):
            c.append(dict(pres=p, n=n, fmt=['0', '1', '2', '3'][:n], legend='f', xr=[4., .05 if n == 3 else .5]))
    c.append(dict(pres='sequence', n=4, fmt=['0'] * 4, legend='f', xr=[4., 0.]))
    c.append(dict(pres='sequence', n=4, fmt=['0'] * 4, legend='f', xr=[3.2, 1.5]))
    return c


HARNESSES = [
    Harness('chart', h_chart, c_chart, bounds='1..4 overplots of 2..5 points with all values and constant terms, six sets of options, six legends, four presentations'),
    Harness('functions', h_functions, c_functions, bounds='four charts with equilibrium and isochrons, chronology and rate for three reference diameters'),
    Harness('sequence', h_sequence, c_sequence, bounds='1..3 rows with all ages, split axis or not'),
    Harness('violin', h_violin, c_violin, bounds='6 or 9 samples at all ages'),
    Harness('epochs', h_epochs, c_epochs, bounds='3, 4 epochs with all limits, five presentations'),
]
ASSUMPTIONS = ['matplotlib is a recorder; counts, fits and functions return free values that tell what was asked for']

"""P32: automatic axes contain all data on whole decades with the right proportions; tick values."""
import math
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.util import abs_le, binned_count, isint

PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']


class Data(Any):
    """a crater count given by what is plotted of it"""

    def getplotdata(self, presentation, binning, range=None, resurfacing=0, showall=0, pf=None, **k):
        r = dict(self.data)
        w = self.__dict__.get('plotted')
        if w and (presentation, binning, bool(resurfacing), bool(showall)) != w:
            r['y'] = r['y'] * 1e-4    # not the points that the overplot shows
        return r

    def decode_range(self, *a, **k):
        return [0., math.inf]


def count_of(I, d, y, ns=None):
    return Data(data={'d': I.np.array(list(d)), 'y': I.np.array(list(y)), 'err': I.np.array(list(y)), 'n': len(d), 'n_event': len(d), 'bin_range': None}, n_sigma=ns,
                filename='set.diam', binned={}, prebinned=False, area=1., perimeter=None, buffered=False, binning='x2')


def overplot(I, cc, **k):
    return I.cst.Craterplot(cratercount=cc, source='set.diam', name='set', type=k.pop('type', 'data'), **k)


def plotset(I, pres, cps, **k):
    s = I.cst.Craterplotset(presentation=pres, craterplot=cps, **k)
    return s


def val(I, e):
    return I.np.log10(e)


def axes(I, s, pres, pts, ns=False):
    """the range contract"""
    x, y = list(s.xrange), list(s.yrange)
    for v in x + y:
        I.check(isint(I, v), 'whole decades')
    x, y = [int(v) for v in x], [int(v) for v in y]
    mx, my = (.3, .8), (.6 if pres == 'differential' else .3)
    t = 1e-8
    for d, r in pts:
        I.check(I.all([10. ** (x[0] + mx[0]) * (1 - t) <= d, 10. ** (x[1] - mx[1]) * (1 + t) >= d]), 'diameters inside with the margins')
        I.check(I.all([10. ** (y[0] + my) * (1 - t) <= r, 10. ** (y[1] - my) * (1 + t) >= r]), 'densities inside with the margins')
    dx, dy = x[1] - x[0], y[1] - y[0]
    I.check(dy == (2 if pres == 'differential' else 1) * dx, 'proportions of the decades')
    return x, y


def h_auto(I):
    c = I.case
    pres = c['pres']
    pts, cps = [], []
    for k, (n, (x0, x1), (y0, y1)) in enumerate(c['plots']):
        # points in order of diameter in separate intervals
        w, h = (x1 - x0) / max(n, 1), (y1 - y0) / max(n, 1)
        p = [(I.log(f'd{k}_{i}', 10. ** (x0 + w * i), 10. ** (x0 + w * (i + 1) - 1e-3)), I.log(f'y{k}_{i}', 10. ** (y0 + h * (n - 1 - i)), 10. ** (y0 + h * (n - i) - 1e-3))) for i in range(n)]
        pts += p
        cps.append(overplot(I, count_of(I, [a for a, _ in p], [b for _, b in p], ns={'bin': ['-1', '0'], 'm2cnd': ['1', '2']} if c.get('ns') else None), **c.get('options', {})))
        o = c.get('options', {})
        cps[-1].cratercount.plotted = (pres, cps[-1].binning, bool(o.get('resurf') and o['type'] == 'c-fit'), bool(o.get('resurf_showall')))
    s = plotset(I, pres, cps, ra_show=1, **(dict(ra_offset=0, bins=False, title=None, print_dimensions='9x9', style='natural', ref_diameter=1., legend='', pt_size=9., cf=None, pf=None) if c.get('ns') else {}))
    s.autoscale()
    x, y = axes(I, s, pres, pts)
    # no more room than needed: one axis is as short as the margins allow
    lo = lambda v: I.any([I.all([a <= b for b in v]) for a in v])
    if not c.get('ns'):
        I.check(len(x) == 2 and len(y) == 2, 'two limits')
    else:
        # room for the chart above the data
        for d, r in pts:
            I.check(y[1] - val(I, r) >= (y[1] - y[0]) * 3 / 16 - 1.0001, 'room for the chart')
        from harness import P41
        s.xrange, s.yrange = I.np.array([float(e) for e in x]), I.np.array([float(e) for e in y])    # (equal, checked above)
        log, _, boxes = P41.space(I, s, lambda s: s.CreatePlotSpace())
        main = boxes[id(s.ax)][1]
        other = [b for k, (o, b) in boxes.items() if k != id(s.ax) and not P41.on(log, o, 'set_xscale')]
        I.check(len(other) == 1, 'a chart of the randomness')
        b = other[0]
        for d, r in pts:
            I.check((b[1] - main[1]) * (y[1] - y[0]) >= (val(I, r) - y[0]) * main[3] - 1e-9, 'the chart stands above the data')
        I.check(I.any([abs_le(I, (b[1] - main[1]) * (y[1] - y[0]) - (val(I, r) - y[0] + (y[1] - y[0]) / 16) * main[3], 1e-6) for d, r in pts]), 'just above the highest')
        I.check(b[1] + b[3] <= main[1] + main[3] + 1e-9, 'within the frame')
    I.reach('auto')


def h_given(I):
    """ranges set by the user"""
    c = I.case
    pres = c['pres']
    p = [(I.log('d', .01, 100.), I.log('y', 1e-5, 10.))]
    cps = [overplot(I, count_of(I, [a for a, _ in p], [b for _, b in p]))]
    s = plotset(I, pres, cps)
    u = [I.real('x0', -4, 0), I.real('x1', 1, 4)] if 'x' in c['axes'] else None
    v = [I.real('y0', -9, 0), I.real('y1', 1, 9)] if 'y' in c['axes'] else None
    s.autoscale(u, v)
    eq = lambda a, b: I.all([abs_le(I, e - f, 1e-12) for e, f in zip(a, b)])
    if u is not None:
        I.check(eq(list(s.xrange), u), 'diameter range as set')
    if v is not None:
        I.check(eq(list(s.yrange), v), 'density range as set')
    for r in (s.xrange if u is None else []), (s.yrange if v is None else []):
        for e in r:
            I.check(isint(I, e), 'other axis on whole decades')
    t = 1e-9
    for d, r in p:
        if u is None:
            I.check(I.all([s.xrange[0] <= val(I, d) + t, s.xrange[1] >= val(I, d) - t]), 'other axis contains the data')
        if v is None:
            I.check(I.all([s.yrange[0] <= val(I, r) + t, s.yrange[1] >= val(I, r) - t]), 'other axis contains the data')
    I.reach('given')


def h_empty(I):
    """overplots without data"""
    c = I.case
    pres = c['pres']
    pts, cps = [], []
    for k, kind in enumerate(c['plots']):
        if kind == 'data':
            p = [(I.log(f'd{k}', 10. ** (k - 1), 10. ** (k - .1)), I.log(f'y{k}', 10. ** (-k - 2), 10. ** (-k - 1.1)))]
            pts += p
            cc = count_of(I, [a for a, _ in p], [b for _, b in p])
        elif kind == 'fails':
            cc = count_of(I, [], [])
            cc.__dict__['getplotdata'] = lambda *a, **k: {}['d']
        elif kind == 'unbinned':
            cc = count_of(I, [1., 2.], [math.inf, math.nan])
        else:
            cc = count_of(I, [], [])
        cps.append(overplot(I, cc))
    s = plotset(I, pres, cps)
    s.autoscale()
    if pts:
        axes(I, s, pres, pts)
    else:
        I.check(all(math.isfinite(float(e)) for e in list(s.xrange) + list(s.yrange)) and s.xrange[1] > s.xrange[0] and s.yrange[1] > s.yrange[0], 'usable default axes')
    I.reach('empty')


def h_count(I):
    """with real crater counts"""
    c = I.case
    pres = c['pres']
    np = I.np
    k0, m = c['k0'], c['m']
    lim = [2 ** (k / 2) for k in range(k0, k0 + m + 1)]
    n = [I.int(f'n{i}', 0, 50) for i in range(m)]
    I.assume(n[0] >= 1)
    area = c['area']
    cc = binned_count(I, lim[:-1], lim[-1], [v * 1. for v in n], n, area)
    cc.n_sigma = None
    cp = overplot(I, cc, binning='root-2')
    s = plotset(I, pres, [cp], pf=None)
    s.autoscale()
    p = cc.getplotdata(pres, 'root-2', range=[0., np.inf])
    pts = list(zip(list(p['d']), list(p['y'])))
    axes(I, s, pres, pts)
    I.reach('count')


def h_ticks(I):
    c = I.case
    e, m = c['e'], c['max']
    sc = 10. ** e
    x0 = I.real('x0', c['x0'] * sc, (c['x0'] + c['w']) * sc)
    mag = I.real('mag', c['mag'] * sc, c['mag1'] * sc)
    t = I.gm.ticks([x0, x0 + mag], m)
    t = [v for v in t]
    n = len(t)
    I.check(2 <= n, 'at least two ticks')
    I.check(I.imp(I.nt(I.all([m == 2, x0 < 0, x0 + mag > 0])), n <= m), 'at most the requested number')
    I.check(n <= max(m, 3), 'at most the requested number')
    steps = [k * 10. ** j for j in range(e - 4, e + 3) for k in (1, 2, 5)]
    step = t[1] - t[0]
    I.check(I.any([abs_le(I, step - s, 1e-9 * s) for s in steps]), 'step of 1, 2 or 5')
    for a, b in zip(t, t[1:]):
        I.check(abs_le(I, b - a - step, 1e-9 * sc), 'equal spacing')
    I.check(I.all([t[0] <= x0 + 1e-9 * sc, t[-1] >= x0 + mag - 1e-9 * sc]), 'the data are covered')
    I.check(I.any([I.all([abs_le(I, step - s, 1e-9 * s), isint(I, t[0] / s)]) for s in steps]), 'multiples of the step')
    if c.get('minor'):
        r, minor = I.gm.ticks([x0, x0 + mag], m, max_minor=c['minor'])
        I.check(len(r) == n and I.all([abs_le(I, a - b, 1e-9 * sc) for a, b in zip(r, t)]), 'the same major ticks')
        I.check(minor in (1, 2, 4, 5, 10), 'minor division')
    I.reach('ticks')


def h_time(I):
    """ticks of the time axis"""
    c = I.case
    a, b = I.real('a', c['lo'][0], c['lo'][1]), I.real('b', c['hi'][0], c['hi'][1])
    s = I.cst.Craterplotset(presentation='sequence', xrange=[b, a] if c.get('rev', 1) else [a, b], yrange=[0, 1], print_dimensions=c.get('dims', '12x8'))
    xs, ys, margin, frac, cross, log_min, div, tv, lbl = s.calculate_time_axis_params()
    I.check(s.t_max > s.t_min, 'a proper time range')
    I.check(I.all([s.t_min <= a + 1e-9, s.t_max >= b - 1e-9]), 'the requested times are on the axis')
    I.check(len(tv) >= 1 and len(tv) == len(lbl), 'labelled ticks')
    for v in tv:
        I.check(I.all([v <= s.t_max + 1e-9, v >= s.t_min - 1e-9]), 'ticks on the axis')
    I.check(I.all([frac >= 0, frac <= 1]), 'share of the linear part')
    if not s.crossover:
        I.check(frac == 1, 'linear axis')
    I.reach('time')


def c_auto(t):
    c = []
    X = [((-2.5, -1.2), (-4.3, 1.1)), ((-1., 1.), (-3., 0.)), ((.1, .9), (-6., -5.5)), ((-2., 3.), (-2., 2.)), ((-.4, -.1), (-8., 3.)), ((-3., 2.9), (0., .1))]
    for i, pres in enumerate(PRES):
        for j, (x, y) in enumerate(X):
            if t == 'quick' and (i + j) % 2:
                continue
            c.append(dict(pres=pres, plots=[(1, x, y)]))
            c.append(dict(pres=pres, plots=[(2, x, y)]))
        c.append(dict(pres=pres, plots=[(1, (-2., -1.), (-5., -4.)), (1, (0., 1.5), (-2., 0.))]))
        c.append(dict(pres=pres, plots=[(1, (-1., 0.), (-3., -1.))] if pres not in ('cumulative', 'differential') else [(2, (-1., .5), (-7., .6))], ns=1))
        O = [dict(type='c-fit', resurf=1, resurf_showall=1), dict(type='c-fit', resurf=1), dict(type='d-fit', resurf=1, binning='10/decade'), dict(type='c-fit', resurf_showall=1), dict(type='poisson', binning='none')]
        for o in (O if t != 'quick' else [O[i], O[(i + 1) % 4]]):
            c.append(dict(pres=pres, plots=[(1, (-1., .5), (-4., -2.))], options=o))
        if t != 'quick':
            c.append(dict(pres=pres, plots=[(1, (-2., -1.), (-5., -4.)), (1, (0., 1.5), (-2., 0.)), (1, (-1., .5), (0., 3.))]))
            c.append(dict(pres=pres, plots=[(2, (-1., 2.), (-6., -1.))], ns=1))
    return c


def c_ticks(t):
    c = []
    for e in (-3, 0, 4):
        for m in (2, 3, 5, 6, 10):
            for mag, mag1 in ((1., 2.2), (2.2, 5.), (5., 10.)):
                for x0 in (0., -7.):
                    if t == 'quick' and (m + int(mag) + int(x0) + e) % 3:
                        continue
                    c.append(dict(e=e, max=m, mag=mag, mag1=mag1, x0=x0, w=1. if t == 'quick' else 3.))
    c += [dict(e=0, max=6, mag=.5, mag1=4.5, x0=0., w=.5, minor=12), dict(e=0, max=2, mag=1., mag1=2., x0=0., w=1., minor=12), dict(e=0, max=5, mag=1., mag1=4., x0=1., w=.5, minor=30)]
    return c


HARNESSES = [
    Harness('auto', h_auto, c_auto, bounds='1..2 (thorough 3) overplots of 1..2 points over up to 6 decades of diameter and 11 of density; with and without the n-sigma chart; all four data presentations'),
    Harness('given', h_given, lambda t: [dict(pres=p, axes=a) for p in PRES for a in ('x', 'y', 'xy')], bounds='all ranges -4..4 and -9..9, all points in 4 x 6 decades'),
    Harness('empty', h_empty, lambda t: [dict(pres=p, plots=q) for p in PRES for q in (['empty', 'data'], ['data', 'empty'], ['empty'], ['unbinned', 'data'], ['data', 'unbinned'], ['fails'], ['fails', 'data'], ['data', 'empty', 'data'])],
            bounds='1..3 overplots, some without any data'),
    Harness('count', h_count, lambda t: [dict(pres=p, k0=k, m=m, area=a) for i, p in enumerate(PRES) for k, m, a in (((-6, 2, 10.), (3, 2, 3000.)) if t == 'quick' else ((-6, 2, 10.), (3, 3, 3000.), (-14, 3, 1e6)))],
            bounds='2 (thorough 3) root-2 bins of up to 50 craters each'),
    Harness('ticks', h_ticks, c_ticks, bounds='ranges of 1..10 times 0.001, 1 and 10000 starting anywhere in an interval, 2..10 ticks'),
    Harness('time', h_time, lambda t: [dict(lo=l, hi=h, dims=d) for l, h, d in (((0., 0.), (3., 4.5), '12x8'), ((1., 2.), (3., 4.5), '10'), ((2., 2.8), (3., 3.7), '10'), ((2., 2.8), (3.7, 4.5), '10'), ((.001, .99), (3., 4.5), '12x8'), ((2.8, 3.), (3.4, 4.), '7x7'), ((2.8, 3.), (4., 4.5), '7x7'), ((3., 3.3), (3.4, 4.), '7x7'), ((3., 3.3), (4., 4.5), '7x7'))],
            bounds='all time ranges 0..4.5 Ga'),
]

"""P39: randomness charts and maps show the stored results."""
import math
import re
from symx.check import Harness
from harness import P37
from harness.P24 import Any, Patch
from harness.P37 import Node, on, xy, seq, same
from harness.util import abs_le, near
from harness.geo import Poly, Multi
from harness.P36 import shapely_, area2

U = {'m2cnd': 'km', 'sdaa': 'km²'}


class Box:
    def __init__(self, x0, y0, w, h):
        self.x0, self.y0, self.width, self.height = x0, y0, w, h
        self.x1, self.y1, self.bounds = x0 + w, y0 + h, (x0, y0, w, h)


class Spines(dict):
    def __init__(self, node, all_):
        super().__init__({k: getattr(node, k) for k in ('left', 'right', 'top', 'bottom')})
        self.all = all_

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if isinstance(k, str) else self.all


class Axes(Node):
    """recorder with a place on the page"""

    def __init__(self, I, log, box):
        super().__init__(I, log, None, 'axes')
        self.__dict__['box'] = Box(*box)
        self.__dict__['get_position'] = lambda *a: self.box
        self.__dict__['spines'] = Spines(Node(I, log), Node(I, log))


def canvas(I, log, c):
    """plot set with a recorder for its page"""
    s, _ = P37.build(I, dict(pres='cumulative', plots=[], dims=c.get('dims', '10x10')))
    s.palette, s.grey = ['fg', 'c1', 'c2', 'c3'], ['g0', 'g1', 'g2', 'g3']
    s.pt_size = s.scaled_pt_size = 9.
    s.sz_ratio = 1.
    s.marker_def = [dict(marker=f'M{i}', markersize=5. + i) for i in range(16)]
    made = []

    def space(self=None, *a, **k):
        s.ax = Axes(I, log, c.get('page', (.1, .05, .8, .9)))
        s.fig = Any(add_axes=lambda rect, **k: made.append(Axes(I, log, [e for e in rect])) or made[-1])
    s.create_map_plotspace = space
    return s, made


def analysis(I, mc=None):
    R = I.cst.Randomnessanalysis
    a = R.__new__(R)
    a.montecarlo, a.plot_reduction_factor, a.progress_queue = mc or {}, None, None
    a.filename, a.name, a.planetary_radius, a.polygon = 'd/set.scc', 'set', 1737.4, Any()
    return a


class Ctx:
    """the modules of the charts with their graphics recorded"""

    def __init__(self, I, log):
        m = I.mod('craterstats.Randomnessanalysis')
        self.p = Patch(m, ticker=Node(I, log).ticker)
        self.q = Patch(I.gm, ticks=lambda r, n, *a: I.np.array([r[0] + (r[1] - r[0]) * k / 4. for k in range(5)]))

    def __enter__(self):
        self.q.__enter__()
        return self.p.__enter__()

    def __exit__(self, *a):
        self.q.__exit__(*a)
        return self.p.__exit__(*a)


def within(I, x, a, b, tol=1e-9):
    return I.all([x - a >= -tol, b - x >= -tol])


def poly_at(I, pts, x):
    """height of a curve given by points, away from its vertices; None where it does not reach"""
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        if bool(x0 < x) and bool(x < x1):
            return y0 + (y1 - y0) * ((x - x0) / (x1 - x0))
    return None


# ---------------------------------------------------------------- histogram of the trials
def h_hist(I):
    c = I.case
    I.opaque_numbers()
    np = I.np
    u = list(c['u'])
    base = I.real('base', *c['base'])
    m = [base + e * c['s'] for e in u]
    if c.get('free'):
        m[c['free']] = base + I.real('free', 0., 2.) * c['s']
    n = len(m)
    mn = sum(m) / n
    sd = np.std(np.array(m))
    m0 = base + I.real('m0', *c['m0'])
    pc = I.real('pc', .5, 49.)
    res = Any(m0=m0, p2=None, mn=mn, sd=sd, n_sigma=(m0 - mn) / sd, percentile=pc)
    a = analysis(I, {c['measure']: dict(n_trials=n, trials={'-1.5': list(m), '2': [5.] * n}, stats={'-1.5': res, '2': Any(m0=1., p2=None, mn=5., sd=1., n_sigma=-4., percentile=1.)})})
    log = []
    s, _ = canvas(I, log, c)
    ax = None
    s.create_map_plotspace()
    if c.get('ax'):
        ax = Axes(I, log, (.1, .1, .2, .2))
    said = []
    with Ctx(I, log), Patch(I.gm, percentile_sigfigs=lambda p, *k: said.append(p) or 'PCT'):
        a.plot_histogram(s, c['measure'], '-1.5', ax0=ax)
    ax = ax or s.ax
    b = on(log, ax, 'bar')
    I.check(len(b) == 1, 'histogram')
    left, h = xy(b[0])[0], seq(b[0][2][1] if len(b[0][2]) > 1 else b[0][3]['height'])
    w = b[0][3].get('width', b[0][2][2] if len(b[0][2]) > 2 else None)
    w = [w] * len(h) if not hasattr(w, '__len__') else list(w)
    if b[0][3].get('align', 'center') != 'edge':
        left = [x - v / 2 for x, v in zip(left, w)]
    I.check(len(left) == len(h) == len(w) >= 3, 'bars')
    I.check(bool(sum(h) == n), 'every trial counted')
    edges = left + [left[-1] + w[-1]]
    for x, v, y in zip(left, w, left[1:]):
        I.close(x + v, y, 'bars adjoin', rtol=1e-9, atol=1e-9)
    for i, k in enumerate(h):
        inside = sum(bool(t >= left[i] - 1e-7) and bool(t <= edges[i + 1] + 1e-7) for t in m)
        sure = sum(bool(t >= left[i] + 1e-7) and bool(t <= edges[i + 1] - 1e-7) for t in m)
        I.check(sure <= k <= inside, 'height of a bar is the number of its trials')
    st = seq(xy(b[0])[0])
    lines = [e for e in on(log, ax, 'plot')]
    out = [e for e in lines if len(xy(e)[0]) > 2]
    I.check(len(out) == 1, 'outline')
    ox, oy = xy(out[0])
    for i, k in enumerate(h):
        mid = (edges[i] + edges[i + 1]) / 2
        got = [oy[j] for j in range(len(ox) - 1) if bool(ox[j] <= mid) and bool(ox[j + 1] >= mid)]
        I.check(len(got) == 1 and bool(got[0] == k), 'outline follows the bars')
    top = on(log, ax, 'set_ylim')[-1]
    yr = seq(top[2][0]) if len(top[2]) == 1 else list(top[2]) or [top[3]['bottom'], top[3]['top']]
    I.check(bool(yr[0] == 0) and all(bool(yr[1] >= k) for k in h), 'counts from zero')
    v = [e for e in lines if len(xy(e)[0]) == 2]
    I.check(len(v) == 2, 'actual value and mean marked')
    at0 = [e for e in v if bool(I.all([abs_le(I, q - m0, 1e-9) for q in xy(e)[0]]))]
    atm = [e for e in v if bool(I.all([abs_le(I, q - mn, 1e-9) for q in xy(e)[0]]))]
    I.check(bool(at0), 'actual value marked')
    I.check(bool(atm), 'mean of the trials marked')
    if len(at0) == len(atm) == 1:
        I.check(bool(xy(at0[0])[1][0] == 0) and bool(xy(at0[0])[1][1] == yr[1]), 'actual value over the whole height')
    t = on(log, ax, 'text')
    I.check(len(t) == 1, 'actual value labelled')
    I.check(I.all([abs_le(I, t[0][2][0] - m0, 1e-9)]), 'label at the actual value')
    first, second = t[0][2][2].split('\n')
    I.check(near(I, I.tonum(first), m0, 5.02e-3), 'actual value in figures')
    I.check(second == 'PCT%' and len(said) == 1, 'percentile in figures')
    I.close(said[0], pc, 'percentile of the actual value', rtol=1e-9)
    f = on(log, ax, 'fill_between')
    I.check(len(f) == 1, 'one-sigma band')
    fx, fy = xy(f[0])
    I.check(all(bool(p <= q + 1e-9) for p, q in zip(fx, fx[1:])), 'band drawn once')
    I.close(fx[0], mn - sd, 'band from the mean less the deviation', rtol=1e-7, atol=1e-9)
    I.close(fx[-1], mn + sd, 'band to the mean plus the deviation', rtol=1e-7, atol=1e-9)
    for i, k in enumerate(h):
        lo, hi = edges[i], edges[i + 1]
        lo = lo if bool(lo > fx[0]) else fx[0]
        hi = hi if bool(hi < fx[-1]) else fx[-1]
        if bool(hi - lo > 1e-6):
            q = (lo + hi) / 2
            g = [fy[j] for j in range(len(fx) - 1) if bool(fx[j] <= q) and bool(fx[j + 1] >= q)]
            I.check(len(g) == 1 and bool(g[0] == k), 'band under the histogram')
    lim = on(log, ax, 'set_xlim')[-1]
    xr = seq(lim[2][0]) if len(lim[2]) == 1 else list(lim[2]) or [lim[3]['left'], lim[3]['right']]
    for q in (m0, edges[0], edges[-1]):
        I.check(I.all([xr[0] < q, q < xr[1]]), 'everything within the axis')
    tk = [q[2][0] for q in on(log, ax, 'set_xticks')][-1]
    lb = [q[2][0] for q in on(log, ax, 'set_xticklabels')][-1]
    I.check(len(tk) == len(lb) >= 1, 'ticks labelled')
    for i, (p, q) in enumerate(zip(tk, lb)):
        if i == len(lb) - 1:
            I.check(q.split()[-1] == U[c['measure']], 'unit')
            q = q.split()[0]
        I.check(abs_le(I, I.tonum(q.strip()) - p, 1e-5 * (c['base'][1] + 10 * c['s'] + c['m0'][1])), 'tick label')
        I.check(within(I, p, xr[0], xr[1]), 'tick within the axis')
    I.reach('histogram')


# ---------------------------------------------------------------- departure from randomness by bin
def levels(I, log, ax):
    """heights of +-1, +-2, +-3 sigma from the shaded bands and the labels beside"""
    L = {}
    for k, e in enumerate(on(log, ax, 'fill_between')):
        a, b = e[2][1], e[2][2] if len(e[2]) > 2 else e[3]['y2']
        L[e[3]['color']] = (a[0], b[0])
        I.check(bool(I.all([abs_le(I, x + y, 1e-9) for x, y in zip(a, b)])), 'bands about zero')
    b = sorted(L.values(), key=lambda p: float(p[1]))
    I.check(len(b) == 3, 'one, two and three sigma bands')
    y = [float(p[1]) for p in b]
    t = [(e[2][1], e[2][2].strip(), e[2][0]) for e in on(log, ax, 'text')]
    num = sorted((float(p), q) for p, q, _ in t if re.fullmatch(r'\d+', q))
    I.check([q for _, q in num] == ['3', '1', '0', '1', '3'], 'sigma labels')
    d = num[2][0]
    for (p, q), z in zip(num, (-y[2], -y[0], 0., y[0], y[2])):
        I.check(abs(p - d - z) < 1e-9 and abs(d) < .3, 'labels at their levels')
    w = {q: float(p) for p, q, _ in t if q in ('clustered', 'separated')}
    I.check(len(w) == 2 and w['clustered'] < -y[2] and w['separated'] > y[2], 'clustered below, separated above')
    return [0.] + y


def place(I, y, n, L):
    """is height y where n standard deviations belong?"""
    ok = []
    for k in (-3, -2, -1, 0, 1, 2, 3):
        z = L[k] if k >= 0 else -L[-k]
        ok += [I.any([n > k - 1e-6, y <= z + 1e-9]), I.any([n < k + 1e-6, y >= z - 1e-9])]
    return I.all(ok)


def h_levels(I):
    c = I.case
    np = I.np
    log = []
    s, _ = canvas(I, log, c)
    meas = c['measures']
    bins = c['bins']
    N = {q: [I.log(f'{q}{i}', 1e-3, 60) * c['sign'][i] for i in range(len(bins))] for q in meas}
    if c['chart'] == 'analysis':
        q = meas[0]
        st = {}
        for i, b in enumerate(bins):
            mn, sd = I.real(f'mn{i}', 1, 5), c['sd']
            st[b] = Any(m0=mn + N[q][i] * sd, mn=mn, sd=sd, n_sigma=N[q][i], p2=None, percentile=5.)
        a = analysis(I, {q: dict(n_trials=17, trials={b: [] for b in bins}, stats=st)})
        s.create_map_plotspace()
        ax0 = Axes(I, log, (.5, .05, .4, .45)) if c.get('ax') else None
        made = []
        keep = s.create_map_plotspace

        def again():
            keep()
            page(s)

        def page(s):
            s.fig = Any(add_axes=lambda rect, **k: made.append(Axes(I, log, [e for e in rect])) or made[-1])
        s.create_map_plotspace = again
        page(s)
        with Ctx(I, log):
            a.plot_n_sigma(s, q, ax0=ax0)
        I.check(len(made) == 1, 'one chart')
        ax = made[0]
        box = ax0.box if ax0 else s.ax.box
        I.check(ax.box.x0 >= box.x0 - 1e-9 and ax.box.y0 >= box.y0 - 1e-9 and ax.box.x1 <= box.x1 + .15 * box.width and ax.box.y1 <= box.y1 + 1e-9, 'chart in its cell')
        I.check(any(f'{q}\n17 trials' in str(e[2][2]) for e in on(log, ax, 'text')), 'measure and number of trials named')
    else:
        s.ax_ra, s.ra_legend_drawn, s.measure = Axes(I, log, (.1, .8, .8, .1)), False, list(meas)
        cp = I.cst.Craterplot(cratercount=Any(decode_range=lambda r, *k: r, n_sigma=dict(bin=list(bins)), n_trials=['17'] * len(meas)), colour='red', psym=4, source='d/s.diam')
        I.opaque_numbers()
        for q in meas:
            cp.cratercount.n_sigma[q] = [('-' if (q, i) in [tuple(e) for e in c.get('gaps', ())] else I.token(v)) for i, v in enumerate(N[q])]
        with Patch(I.mod('craterstats.Craterplot'), ticker=Node(I, log).ticker):
            cp.oplot_n_sigma(s)
        ax = s.ax_ra
        I.check(any('17 trials' in str(e[2][2]) for e in on(log, ax, 'text')), 'number of trials named')
    L = levels(I, log, ax)
    series = [e for e in on(log, ax, 'plot') if e[3].get('marker') is not None]
    I.check(len(series) == len(meas), 'one series per measure')
    styles = {}
    for q in meas:
        I.check([t for t in (1,) if q in I.cst.LINESTYLES], 'line style')
    for q in meas:
        e = [e for e in series if e[3].get('linestyle', e[3].get('ls')) == I.cst.LINESTYLES[q]]
        I.check(len(e) == 1, 'line style of the measure')
        if c['chart'] != 'analysis':
            I.check(e[0][3].get('color') == 'red' and e[0][3]['marker'] == 'M4', 'colour and symbol of the overplot')
            n = [g for g in on(log, ax, 'plot') if g[3].get('marker') is None and g[3].get('linestyle', g[3].get('ls')) == I.cst.LINESTYLES[q]]
            lab = [g for g in on(log, ax, 'text') if g[2][2] == q]
            I.check(len(n) == len(lab) == 1 and float(xy(n[0])[1][0]) == float(lab[0][2][1]), 'line style beside the name of the measure')
        gx, gy = xy(e[0])
        I.check(len(gx) == len(gy) == len(bins), 'a point per bin')
        for i, (x, y) in enumerate(zip(gx, gy)):
            I.check(abs(float(x) - math.log10(2 ** (float(bins[i]) + .25))) < 1e-6, 'at the centre of the bin')
            if (q, i) in [tuple(g) for g in c.get('gaps', ())]:
                I.check(y is None or (isinstance(y, float) and y != y), 'gap where there is no value')
                continue
            n = N[q][i] if q == 'm2cnd' else -N[q][i]
            I.check(place(I, y, n, L), 'clustered bins below, separated above, at their number of sigmas')
    I.reach('levels')


# ---------------------------------------------------------------- sheet of maps
class Shift:
    def __init__(self, *a, **k):
        pass

    def __call__(self, lon, lat, inverse=False, **k):
        f = lambda p, m, o: [m * e + o for e in p] if hasattr(p, '__len__') else m * p + o
        return f(lon, 3., -7.), f(lat, 2., 5.)


def h_sheet(I):
    c = I.case
    q = c['measure']
    bins = c['bins']
    log = []
    s, made = canvas(I, log, c)
    C = I.cst.Spatialcount.Craterlist
    cr, st = {}, {}
    pts = {}
    for i, b in enumerate(bins):
        n = 1 + i
        cr[b] = C(lon=[I.real(f'x{i}{j}', -50, 50) for j in range(n)], lat=[I.real(f'y{i}{j}', -50, 50) for j in range(n)], diam=[2. ** float(b) * 1.1] * n, fraction=[1.] * n)
        pts[b] = [Any(x=I.real(f'p{i}{j}', -50, 50), y=I.real(f'r{i}{j}', -50, 50)) for j in range(n)]
        st[b] = Any(m0=1. + i, mn=2., sd=1., n_sigma=-1., p2=pts[b], percentile=3.)
    other = 'sdaa' if q == 'm2cnd' else 'm2cnd'
    a = analysis(I, {q: dict(n_trials=9, trials={b: [] for b in bins}, stats=st), other: dict(n_trials=8, trials={'7': []}, stats={'7': st[bins[0]]})})
    a.get_bin_craters = lambda b, Craterlist=False: cr[b]
    mf = I.real('mf', .3, 1.)

    def factor(*k, **kw):
        a.ortho_proj = Shift()
        return mf
    a.get_plot_reduction_factor = factor
    maps, hist, sig, vor, named = [], [], [], [], []
    a.plot = lambda cps, craters=None, grid=False, ax=None: maps.append((craters, ax))
    a.plot_histogram = lambda cps, measure, b, ax0=None, sz_ratio=1.: hist.append((measure, b, ax0))
    a.plot_n_sigma = lambda cps, measure, ax0=None: sig.append((measure, ax0))
    a.oplot_voronoi = lambda cps, craters, p2, ax=None: vor.append((craters, p2, ax))
    m = I.mod('craterstats.Randomnessanalysis')
    sel = I.cst.ra_decode_selection(c['select']) if c.get('select') is not None else None
    with Ctx(I, log), Patch(m, sph=Any(get_x=lambda p: p.x, get_y=lambda p: p.y)), Patch(I.gm, diameter_range=lambda r, *k: named.append(list(r)) or f'RNG{len(named) - 1}#'):
        a.plot_montecarlo_split(s, q, selection=sel)
    want = bins if not sel else [bins[i - 1] for i in c['shown']]
    I.check([h[1] for h in hist] == want and all(h[0] == q for h in hist), 'a histogram for each bin selected')
    I.check([[k for k in bins if cr[k] is v[0]] for v in maps] == [[b] for b in want], 'a map for each bin selected')
    I.check(len(sig) == (1 if not sel or 0 in sel else 0) and all(v[0] == q for v in sig), 'chart of all bins where selected')
    page = s.ax.box
    cells = []
    for k, b in enumerate(want):
        A, H = maps[k][1].box, hist[k][2].box
        t = [e for e in log if e[1] == 'text' and isinstance(e[2][2], str) and e[2][2].endswith(f'n = {len(cr[b].diam)}')]
        I.check(len(t) == 1, 'number of craters of the bin named')
        cell = t[0][0].box
        cells.append(cell)
        r = named[int(t[0][2][2][3:].split('#')[0])]
        I.check(abs(r[0] / 2. ** float(b) - 1) < 1e-6 and abs(r[1] / 2. ** (float(b) + .5) - 1) < 2e-3, 'diameters of the bin named')
        for z in (A, H):
            I.check(I.all([within(I, z.x0, cell.x0, cell.x1), within(I, z.x1, cell.x0, cell.x1), within(I, z.y0, cell.y0, cell.y1), within(I, z.y1, cell.y0, cell.y1)]), 'map and histogram in the cell of the bin')
            I.check(I.all([z.width > 0, z.height > 0]), 'size')
        if q == 'm2cnd':
            ln = on(log, maps[k][1], 'plot')
            I.check(len(ln) == len(cr[b].diam), 'a line to the neighbour of each crater')
            pr = Shift()
            for e, x, y, p in zip(ln, cr[b].lon, cr[b].lat, pts[b]):
                gx, gy = xy(e)
                x0, y0 = pr(x, y)
                x1, y1 = pr(p.x, p.y)
                I.check(I.any([I.all([same(I, gx, [x0, x1]), same(I, gy, [y0, y1])]), I.all([same(I, gx, [x1, x0]), same(I, gy, [y1, y0])])]), 'from the crater to its neighbour')
        else:
            I.check(vor[k][0] is cr[b] and vor[k][1] is pts[b] and vor[k][2] is maps[k][1], 'cells of the craters of the bin')
    for _, z in sig:
        cells.append(z.box)
    for i, p in enumerate(cells):
        I.check(p.x0 >= page.x0 - 1e-9 and p.x1 <= page.x1 + 1e-9 and p.y0 >= page.y0 - 1e-9 and p.y1 <= page.y1 + 1e-9, 'on the page')
        I.check(p.width > page.width / 8 and p.height > page.height / 8, 'readable')
        for o in cells[:i]:
            I.check(p.x0 >= o.x1 - 1e-9 or o.x0 >= p.x1 - 1e-9 or p.y0 >= o.y1 - 1e-9 or o.y0 >= p.y1 - 1e-9, 'a cell of its own')
    order = [(-round(p.y0, 6), round(p.x0, 6)) for p in cells[:len(want)]]
    I.check(order == sorted(order), 'in the order of the bins')
    I.reach('sheet')


def h_cells(I):
    """adjacent areas drawn on the map: outlines through their vertices, finely enough divided"""
    c = I.case
    log = []
    s, _ = canvas(I, log, c)
    s.create_map_plotspace()
    a = analysis(I)
    a.ortho_proj = Shift()
    P = []
    for k, w in enumerate(c['w']):
        x0, y0 = 20. * k, 3. * k
        sh = [(x0, y0), (I.real(f'x{k}', x0 + .9 * w, x0 + w), y0), (x0 + .5 * w, I.real(f'y{k}', y0 + .7 * w, y0 + w)), (x0, y0)]
        P.append(Multi([Poly(sh), Poly([(x + .5, y + 10.) for x, y in sh])]) if k in c.get('multi', ()) else Poly(sh))
    flat = [p for q in P for p in (q.polys if isinstance(q, Multi) else [q])]
    drawn = []

    class Geod:
        def __init__(self, *a, **k):
            pass

        def inv(self, x0, y0, x1, y1):
            # a 3:4:5 like stand-in: direction carried as a pair
            d = abs(x1 - x0) + abs(y1 - y0)
            return (x1 - x0, y1 - y0), (x0 - x1, y0 - y1), d * .0175

        def fwd(self, x0, y0, az, d):
            x0, y0, d = list(x0), list(y0), list(d)
            az = az if isinstance(az, tuple) else az[0]
            t = abs(az[0]) + abs(az[1])
            f = [e / .0175 / t for e in d]
            return [x + az[0] * e for x, e in zip(x0, f)], [y + az[1] * e for y, e in zip(y0, f)], None
    import numpy
    sh = shapely_()
    load = sh.from_wkb

    class G:
        def __init__(self, p):
            self.exterior, self.interiors, self.geom_type = Any(xy=([q[0] for q in p.shell], [q[1] for q in p.shell]), coords=p.shell), [], 'Polygon'

    class GM:
        def __init__(self, p):
            self.geoms, self.geom_type = [G(e) for e in p.polys], 'MultiPolygon'
    shp = Any(from_wkb=lambda z: GM(z) if isinstance(z, Multi) else G(z), MultiPolygon=GM, Polygon=lambda z, *k, **kw: Any(ring=[tuple(p) for p in z]))
    m = I.mod('craterstats.Randomnessanalysis')
    full = lambda n, v: [v] * int(n)
    with Ctx(I, log), Patch(m, sph=Any(to_wkb=lambda p: p), shp=shp, prj=Any(Geod=Geod), np=Proxy(I.np, full=full)), Patch(I.gm, shp_plot_polygon=lambda ax, p, **k: drawn.append((ax, p.ring))):
        a.oplot_voronoi(s, None, P)
    I.check(len(drawn) == len(flat) and all(d[0] is s.ax for d in drawn), 'an outline per part')
    pr = Shift()
    for (ax, r), p in zip(drawn, flat):
        v = [pr(*e) for e in p.shell]
        at = []
        for i, e in enumerate(v):
            k = [j for j, g in enumerate(r) if bool(I.all([abs_le(I, g[0] - e[0], 1e-7), abs_le(I, g[1] - e[1], 1e-7)]))]
            I.check(bool(k), 'outline through every corner')
            at.append(k[0])
        for i in range(len(v) - 1):
            lo = at[i]
            hi = at[i + 1] if i + 1 < len(v) - 1 else max(j for j, g in enumerate(r) if bool(I.all([abs_le(I, g[0] - v[0][0], 1e-7), abs_le(I, g[1] - v[0][1], 1e-7)])) or j == len(r) - 1)
            I.check(hi > lo, 'corners in order')
            for g in r[lo:hi + 1]:
                x = (g[0] - v[i][0]) * (v[i + 1][1] - v[i][1]) - (g[1] - v[i][1]) * (v[i + 1][0] - v[i][0])
                I.check(abs_le(I, x, 1e-5), 'along the edges')
    I.reach('cells')


class Proxy:
    def __init__(self, base, **k):
        self.__dict__.update(_b=base, **k)

    def __getattr__(self, k):
        return getattr(self._b, k)


# ---------------------------------------------------------------- map of a count
def h_map(I):
    c = I.case
    log = []
    s, _ = canvas(I, log, c)
    s.create_map_plotspace()
    S = I.cst.Spatialcount
    a = S.__new__(S)
    a.planetary_radius, a.filename, a.name = 1737.4, 'd/s.scc', 's'
    parts = []
    for k, nh in enumerate(c['parts']):
        x = 25. * k
        q = lambda t, x0, x1, y0, y1: [(x0, y0), (I.real(f'{t}x', x1 - 1, x1), y0), (x1 - 1., I.real(f'{t}y', y1 - 1, y1)), (x0, y0)]
        parts.append(Poly(q(f'e{k}', x, x + 20, -10, 10), [q(f'h{k}{j}', x + 3 + 5 * j, x + 6 + 5 * j, -3, 0)[::-1] for j in range(nh)]))
    a.polygon = Multi(parts) if c.get('multi', 1) else parts[0]
    n = len(c['at'])
    lon, lat, r = [I.real(f'cx{i}', x, x + 7) for i, (x, _) in enumerate(c['at'])], [I.real(f'cy{i}', y, y + 7) for i, (_, y) in enumerate(c['at'])], [.5 + i for i in range(n)]
    rim = lambda x, y, e: ([x + e, x, x - e, x, x + e], [y, y + e, y, y - e, y])
    mine = S.Craterlist(lon=lon, lat=lat, diam=r, fraction=[1.] * n)
    a.lon, a.lat, a.diam, a.fraction = ([90.], [0.], [7.], [1.]) if c.get('list') else (lon, lat, r, [1.] * n)

    def rims(craters=None, ns=100):
        p = craters if craters is not None else a
        return [rim(x, y, e) for x, y, e in zip(p.lon, p.lat, p.diam)], 'wkt'
    a.find_rims = rims
    drawn, centre = [], []
    m = I.mod('craterstats.Spatialcount')

    class G:
        def __init__(self, p):
            f = lambda t: Any(xy=([q[0] for q in t], [q[1] for q in t]), coords=t)
            self.exterior, self.interiors, self.geom_type = f(p.shell), [f(h) for h in p.holes], 'Polygon'

    class GM:
        def __init__(self, p):
            self.geoms, self.geom_type = [e if isinstance(e, G) else G(e) for e in (p.polys if isinstance(p, Multi) else p)], 'MultiPolygon'
    shp = Any(from_wkb=lambda z: GM(z) if isinstance(z, Multi) else G(z), MultiPolygon=GM, Polygon=lambda z, holes=None: Any(ring=[tuple(p) for p in z], holes=[[tuple(p) for p in h] for h in holes or []]))
    sph = Any(centroid=lambda p: Any(x=12., y=-3.), get_x=lambda p: p.x, get_y=lambda p: p.y, to_wkb=lambda p: p)

    def proj(*k, **kw):
        centre.append(kw)
        return Shift()
    ax = Axes(I, log, (.2, .2, .3, .3)) if c.get('ax') else None
    with Patch(m, sph=sph, shp=shp, prj=Any(Proj=proj)), Patch(I.gm, shp_plot_polygon=lambda ax, p, **k: drawn.append((ax, p))):
        a.plot(s, craters=mine if c.get('list') else None, ax=ax)
    ax = ax or s.ax
    I.check(len(centre) >= 1 and centre[0].get('lat_0') == -3. and centre[0].get('lon_0') == 12. and centre[0].get('proj') == 'ortho' and centre[0].get('R') == a.planetary_radius, 'seen from above the centre of the area')
    pr = Shift()
    I.check(len(drawn) == len(parts) and all(d[0] is ax for d in drawn), 'every part of the area')
    xs, ys = [], []
    eq = lambda g, w: len(g) == len(w) and I.all([I.all([abs_le(I, p[0] - q[0], 1e-7), abs_le(I, p[1] - q[1], 1e-7)]) for p, q in zip(g, w)])
    for (_, d), p in zip(drawn, parts):
        w = [pr(*e) for e in p.shell]
        I.check(eq(d.ring, w), 'outline of the part')
        I.check(len(d.holes) == len(p.holes) and I.all([eq(g, [pr(*e) for e in h]) for g, h in zip(d.holes, p.holes)]), 'holes of the part')
        xs += [e[0] for e in w]
        ys += [e[1] for e in w]
    ln = on(log, ax, 'plot')
    I.check(len(ln) == n, 'a rim per crater')
    for e, x, y, d in zip(ln, lon, lat, r):
        gx, gy = xy(e)
        w = pr(*rim(x, y, d))
        I.check(I.all([same(I, gx, w[0]), same(I, gy, w[1])]), 'rim of the crater')
        xs += w[0]
        ys += w[1]
    lim = []
    for k, v in (('set_xlim', xs), ('set_ylim', ys)):
        e = on(log, ax, k)[-1]
        b = seq(e[2][0]) if len(e[2]) == 1 else list(e[2])
        I.check(I.all([I.all([b[0] < q, q < b[1]]) for q in v]), 'area and craters within the map')
        lim.append(b)
        z = .25 * (b[1] - b[0])
        I.check(I.all([I.any([q - b[0] <= z for q in v]), I.any([b[1] - q <= z for q in v])]), 'map fills its frame')
    asp = on(log, ax, 'set_aspect')
    I.check(bool(asp) and asp[-1][2][0] in ('equal', 1, 1.), 'same scale in both directions')
    I.reach('map')


# ---------------------------------------------------------------- which charts are written
def c_hist(t):
    c = []
    U5 = [[0, 1], [0, .2, 1], [0, .5, .5, 1], [0, 1, 1, 1], [0, .1, .15, .9, 1.2], [0, .3, .31, .7, .95, 1.]]
    if t != 'quick':
        U5 += [[0, .1, .2, .3, .4, .5, .6, .7, 1.], [0] * 8 + [1], [i * i / 16. for i in range(5)]]
    for i, u in enumerate(U5):
        for j, q in enumerate(('m2cnd', 'sdaa')):
            c.append(dict(u=u, base=[3., 4.], s=[1., 20.][(i + j) % 2], m0=[[-2., 0.], [0., 1.], [1., 9.]][(i + j) % 3], measure=q, ax=(i + j) % 2))
    c += [dict(u=[0, .5, 1.], free=1, base=[1e3, 1.0001e3], s=1e2, m0=[10., 11.], measure='sdaa', ax=1), dict(u=[0, .4, 1.], free=1, base=[.011, .0110001], s=.001, m0=[-.001, .002], measure='m2cnd', ax=0)]
    return c


def h_shown(I):
    """the chart above a plot: data sets with stored results, when asked for"""
    c = I.case
    log = []
    s, _ = canvas(I, log, c)
    s.presentation, s.ra_show, s.decades = 'differential', c['ra_show'], [5, 5, 10]
    s.ax, s.ax_ra, s.ra_legend_drawn, s.measure = Axes(I, log, (.1, .1, .8, .7)), Axes(I, log, (.1, .8, .8, .1)), False, ['m2cnd']
    line = {'d': I.np.array([1., 2.]), 'y': I.np.array([1., .5])}
    s.pf = Any(getplotdata=lambda *a, **k: line, getisochron=lambda *a, **k: line)
    n = I.log('n', 1e-3, 60)
    d, y = [I.log(f'd{i}', .1, 9.) for i in range(2)], [I.log(f'y{i}', 1e-6, 1.) for i in range(2)]
    shown, cps = [], []
    for i, ty in enumerate(c['types']):
        dat = {'d': I.np.array(list(d)), 'y': I.np.array(list(y)), 'err': I.np.array(list(y)), 'n': 2, 'n_event': 2, 'bin_range': None}
        cc = Any(getplotdata=lambda *a, **k: dict(dat), decode_range=lambda r, *k: r, n_sigma=dict(bin=['-1'], m2cnd=[I.token(n)]) if i not in c.get('none', ()) else None, n_trials=['17'])
        cp = I.cst.Craterplot(cratercount=cc, colour=f'c{i}', psym=4, source='d/s.diam', type=ty, isochron=0, show_age=0, hide=1 if i in c.get('hide', ()) else 0, error_bars=0, range=[1., 2.], binning='x2')
        cp.range, cp.a0, cp.t = I.np.array([1., 2.]), [-3.] * 3, [1.] * 3
        cp.calculate_age = lambda *a: None
        cp.make_legend_label = lambda *a: ['x']
        cps.append(cp)
    I.opaque_numbers()
    with Patch(I.mod('craterstats.Craterplot'), ticker=Node(I, log).ticker):
        for cp in cps:
            cp.overplot(s)
    got = [e for e in on(log, s.ax_ra, 'plot') if e[3].get('marker') is not None]
    want = [i for i, ty in enumerate(c['types']) if ty == 'data' and c['ra_show'] and i not in c.get('hide', ()) and i not in c.get('none', ())]
    I.check([e[3].get('color') for e in got] == [f'c{i}' for i in want], 'chart of each data set with results, when asked for')
    words = [e for e in on(log, s.ax_ra, 'text') if '17 trials' in str(e[2][2])]
    I.check(len(words) == (1 if want else 0), 'explained once')
    pts = [e for e in on(log, s.ax, 'plot') if e[3].get('marker') is not None]
    I.check([e[3].get('color') for e in pts] == [f'c{i}' for i in range(len(cps)) if i not in c.get('hide', ())], 'points of each set shown')
    for e in pts:
        gx, gy = xy(e)
        I.check(len(gx) == len(gy) == 2, 'all points')
        for k in range(2):
            I.close(gx[k], I.np.log10(d[k]), 'points at their diameters', atol=1e-9)
            I.close(gy[k], y[k], 'points at their densities', rtol=1e-9)
    I.reach('shown')


def c_shown(t):
    T = ['data', 'c-fit', 'd-fit', 'poisson']
    return [dict(types=T, ra_show=1), dict(types=T, ra_show=0), dict(types=['data', 'data', 'data'], ra_show=1, hide=[0]), dict(types=['c-fit', 'data', 'data'], ra_show=1, none=[1]), dict(types=['poisson', 'c-fit'], ra_show=1), dict(types=['data', 'data'], ra_show=1, none=[0, 1]), dict(types=['data'], ra_show=1)]


def c_levels(t):
    c = []
    for q in ('m2cnd', 'sdaa'):
        for sign in ([1, -1, 1], [-1, 1, -1]):
            for ax in (0, 1):
                c.append(dict(chart='analysis', measures=[q], bins=['-2.5', '-2', '1'], sign=sign, sd=[.5, 3.][ax], ax=ax))
    for ms in (['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa']):
        for sign in ([1, -1, 1], [-1, 1, -1]):
            c.append(dict(chart='overplot', measures=ms, bins=['-1', '0.5', '2.5'], sign=sign))
    c += [dict(chart='overplot', measures=['m2cnd', 'sdaa'], bins=['-1', '0.5', '2.5'], sign=[1, -1, -1], gaps=[['sdaa', 0], ['m2cnd', 2]]), dict(chart='analysis', measures=['sdaa'], bins=['3'], sign=[-1], sd=1.)]
    return c


def c_sheet(t):
    B = ['-3', '-2.5', '-1', '0', '0.5', '1', '1.5', '2', '10.5']
    c = []
    for k in range(1, 10):
        c.append(dict(measure=('m2cnd', 'sdaa')[k % 2], bins=B[:k], page=[(.1, .05, .8, .9), (.05, .1, .9, .4)][k % 2]))
    c += [dict(measure='m2cnd', bins=B[:5], select='2,4', shown=[2, 4]), dict(measure='m2cnd', bins=B[:5], select='4, 2', shown=[2, 4]), dict(measure='sdaa', bins=B[:5], select='0,3', shown=[3]), dict(measure='m2cnd', bins=B[:4], select='3', shown=[3]),
          dict(measure='sdaa', bins=B[:4], select='1,2,3', shown=[1, 2, 3]), dict(measure='m2cnd', bins=B[:3], select='2,9', shown=[2]), dict(measure='m2cnd', bins=B, select='0,1,2,3,9', shown=[1, 2, 3, 9])]
    return c


def c_cells(t):
    return [dict(w=[5.]), dict(w=[.05]), dict(w=[.05, 8.], multi=[0]), dict(w=[.06], multi=[0])]


def c_map(t):
    c = []
    AT = [[(-4., -3.)], [(10., -14.), (12., 6.)], [(16., -3.)], [(5., -4.), (60., 30.)]]
    for i, p in enumerate([[0], [1], [2], [0, 0], [1, 0], [0, 2]]):
        for j, at in enumerate(AT if t != 'quick' else AT[i % 2::2]):
            c.append(dict(parts=p, at=at, ax=(i + j) % 2, list=(i + 1) % 2))
    c += [dict(parts=[1], multi=0, at=AT[0]), dict(parts=[0], multi=0, at=AT[1], ax=1, list=1), dict(parts=[0], multi=0, at=[(-20., -20.), (1., 30.), (30., 2.)])]
    return c


HARNESSES = [
    Harness('hist', h_hist, c_hist, bounds='2 to 6 trials (9 in depth) in fixed proportions at all positions, one of them free in two cases; all actual values'),
    Harness('levels', h_levels, c_levels, bounds='1 to 3 bins; departures of .001 to 60 sigma in either direction'),
    Harness('shown', h_shown, c_shown, bounds='1 to 4 overplots of the types, shown or hidden, with or without results; any departure, diameters and densities'),
    Harness('sheet', h_sheet, c_sheet, bounds='1 to 9 bins, positions of craters and neighbours free, all reduction factors'),
    Harness('cells', h_cells, c_cells, bounds='1 to 3 adjacent areas of 1 or 2 parts with free corners'),
    Harness('map', h_map, c_map, bounds='1 or 2 parts with up to 2 holes, 1 to 3 craters anywhere'),
]
ASSUMPTIONS = ['matplotlib is a recorder; projection, geodesics and rims of craters are affine stand-ins']

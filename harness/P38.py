"""P38: uncertainty charts and age insets show the computed values on their stated scales."""
import math
from symx.check import Harness
from harness import P37
from harness.P24 import Any, Patch
from harness.P37 import Node, on, xy, seq, same
from harness.util import abs_le


def chart(I, c, **k):
    s, _ = P37.build(I, dict(pres='uncertainty', plots=[], ef=c.get('ef'), dims=c.get('dims', '10x10')))
    s.xrange, s.yrange = list(c['xr']), list(c.get('yr', [1., 5.]))
    s.min_diameter, s.n_samples, s.global_area = c.get('dmin', .5), 4, 1e12
    s.legend = ''
    for a, b in k.items():
        setattr(s, a, b)
    log, _, _ = P37.draw(I, s)
    return s, log


def show(I, s, kind, res):
    """draw one of the three charts; (recorded calls, polygons)"""
    log = s.fig._log
    n = len(log)
    m = I.mod('craterstats.Craterplotset')
    with Patch(m, Polygon=getattr(Node(I, log), 'Polygon')):
        s.age_area_plot(kind, res)
    return log[n:]


def result(s, zz, kk, ee, shape, area=1e12):
    I = s.pf.I
    np = I.np
    arr = lambda v: np.array([np.array(r) for r in v])
    return dict(zz=arr(zz), kk=arr(kk), ee=arr(ee), lm=arr(kk), nsx=shape[0], nsy=shape[1], log_area_range=s.yrange, max_area=area)


def nan(I, x):
    return isinstance(x, float) and x != x


def colours(I, e, data):
    """(limits of the colour scale, number of colours or None)"""
    k = e[3]
    if k.get('norm') is not None:
        lo, hi = k['norm'].vmin, k['norm'].vmax
    else:
        lo, hi = k.get('vmin'), k.get('vmax')
    v = [x for r in data for x in r if not nan(I, x)]
    mn = mx = v[0] if v else 0.
    for x in v[1:]:
        if bool(x < mn):
            mn = x
        if bool(x > mx):
            mx = x
    lo, hi = (mn if lo is None else lo), (mx if hi is None else hi)
    cm = k.get('cmap', e[2][1] if len(e[2]) > 1 else None)
    if isinstance(cm, str):
        import matplotlib
        cm = matplotlib.colormaps[cm]
    return lo, hi, getattr(cm, 'N', None)


def h_nodes(I):
    c = I.case
    nx, ny = c['shape']
    kind = c['kind']
    s, _ = chart(I, c)
    free = [tuple(q) for q in c['free']]
    grid = lambda f, g: [[f(i, j) if (i, j) in free else g(i, j) for j in range(ny)] for i in range(nx)]
    kk = grid(lambda i, j: I.int(f'k{i}_{j}', 0, 12) if kind == 'k' else 3., lambda i, j: c.get('fill', 0) if kind == 'k' else 2.)
    zz = grid(lambda i, j: I.real(f'z{i}_{j}', 0., 3.) if kind == 'err' else .3, lambda i, j: .125 * (1 + i + 2 * j))
    ee = grid(lambda i, j: I.log(f'e{i}_{j}', .05, 20.) if kind == 'age' else 1.5, lambda i, j: 2. ** (i - j))
    log = show(I, s, kind, result(s, zz, kk, ee, (nx, ny)))
    ims = on(log, s.ax, 'imshow', 'pcolormesh')
    I.check(len(ims) == 1 and ims[0][1] == 'imshow', 'one image')
    e = ims[0]
    im = [[x for x in r] for r in (e[2][0] if e[2] else e[3]['X'])]
    I.check(list(e[3].get('extent', ())) == [0, 1, 0, 1] and e[3].get('origin') == 'lower' and e[3].get('aspect') == 'auto', 'over the whole chart, from its lower left corner')
    I.check(len(im) == ny and all(len(r) == nx for r in im), 'a pixel per node')
    lo, hi, N = colours(I, e, im)
    bars = [q for q in on(log, s.fig, 'colorbar')]
    I.check(len(bars) == 1 and bars[0][2][0] is e[4] and (bars[0][2][1] if len(bars[0][2]) > 1 else bars[0][3].get('cax')) is s.ax_cbar, 'scale of this image')
    bar = bars[0]
    ticks = bar[3].get('ticks')
    labels = [q for q in log if q[1] == 'set_yticklabels' and q[0]._owner is bar[4]]
    for q in log:
        if q[1] in ('set_ticks', 'set_yticks') and (q[0] is bar[4] or q[0]._owner is bar[4]):
            ticks = q[2][0]
            if q[3].get('labels') is not None:
                labels = [(0, 0, [q[3]['labels']], {})]
    text = ' '.join(str(q[2][0]) for q in log if q[1] in ('set_label', 'set_ylabel') and (q[0] is bar[4] or q[0]._owner is bar[4]))
    d = c.get('dmin', .5)
    I.check(any(t in text for t in ([f'{d:g}$ km', f'{d:g} km'] if d >= 1 else [f'{d * 1000:g}$ m', f'{d * 1000:g} m'])), 'minimum diameter named')
    if kind in ('k', 'age'):
        labels = labels[0][2][0]
        I.check(len(labels) == len(ticks), 'labels of the scale')
    for i in range(nx):
        for j in range(ny):
            v = im[j][nx - 1 - i]
            if kind == 'err':
                I.close(v, zz[i][j] * 100, 'uncertainty in per cent', rtol=1e-7, atol=1e-9)
                I.check(bool(lo == 0), 'scale from zero')
            elif kind == 'age':
                r = ee[i][j]
                inside = I.any([r > .2001]) and I.all([r > .2001, r < 4.999])
                if bool(inside):
                    I.close(v, I.np.log10(r), 'logarithm of measured over actual age', rtol=1e-7, atol=1e-9)
                elif bool(I.any([r < .1999, r > 5.001])):
                    I.check(nan(I, v) or bool(v != v) or bool(v < lo) or bool(v > hi), 'nothing beyond the scale')
            else:
                n = kk[i][j]
                f = n if isinstance(n, int) else [q for q in range(13) if bool(n == q)][0]
                want = '7+' if f >= 7 else str(f)
                pos = (v - lo) / (hi - lo) * N if bool(hi > lo) else 0.
                b = [q for q in range(N) if bool(pos >= q - (1e-9 if q else 1e9)) and (bool(pos < q + 1 - 1e-9) or q == N - 1)]
                tk = [(t - lo) / (hi - lo) * N if bool(hi > lo) else -1. for t in ticks]
                got = [l for t, l in zip(tk, labels) if bool(t > b[0]) and bool(t < b[0] + 1)]
                I.check(got == [want], 'colour stands for the number of craters')
    if kind == 'age':
        for t, l in zip(ticks, labels):
            I.check(abs(10 ** t / float(l) - 1) < .05, 'scale labelled with the ratio')
        I.check(abs(lo + hi) < 1e-6 and abs(10 ** hi - 5.) < 1e-3, 'scale centred on agreement')
    I.reach(kind)


def place(s, t, I):
    """distance of an age from the left-hand side: linear above the crossover, logarithmic below"""
    xf, t0, t1, t2 = s.xfrac_linear, s.t_min, s.t_crossover, s.t_max
    if bool(t <= t0):
        return 1.
    if bool(t >= t1):
        return xf * (t2 - t) / (t2 - t1)
    return xf + (1 - xf) * (math.log10(t1) - I.np.log10(t)) / (math.log10(t1) - math.log10(t0))


def h_shade(I):
    c = I.case
    s, _ = chart(I, dict(c, ef=1))
    np = I.np
    got = {}
    T = I.log('T', *c['T']) if c['log'] else I.real('T', *c['T'])
    if c['T'][0] == c['T'][1]:
        T = c['T'][0]
    A = I.log('A', 10 ** c['A'][0], 10 ** c['A'][1]) if c['A'] else 1e12

    def t(a0=None, n1=None):
        got['n1'] = n1
        return T
    s.cf.t = t
    dens = 2.5
    s.ef.evaluate = lambda p, d, a0=None: got.setdefault('ef', (p, d)) and dens
    if not c['ef']:
        s.ef = None
    one = [[1., 1.], [1., 1.]]
    log = show(I, s, 'k', result(s, one, one, one, (2, 2), A))
    if c['ef']:
        I.check(got['ef'] == ('cumulative', c.get('dmin', .5)), 'equilibrium density at the minimum diameter')
        I.close(got['n1'], dens * s.pf.C(1.) / s.pf.C(c.get('dmin', .5)), 'equilibrium density carried to 1 km along the production function', rtol=1e-9)
    px, py = I.real('x', .01, .99), I.real('y', .01, .99)
    shaded = []
    for q in log:
        if q[1] == 'add_patch' and q[0] is s.ax:
            made = [e for e in log if e[1] == 'Polygon' and e[4] is q[2][0]]
            I.check(len(made) == 1, 'shaded polygon')
            pts = [(a, b) for a, b in (made[0][2][0] if made[0][2] else made[0][3]['xy'])]
            n = 0
            for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
                if bool(I.all([abs_le(I, x0 - x1, 1e-12)])):
                    lo, hi = (y0, y1) if bool(y0 <= y1) else (y1, y0)
                    n += bool(I.all([x0 > px, lo <= py, py < hi]))
                else:
                    I.check(I.all([abs_le(I, y0 - y1, 1e-12)]), 'edges along the axes')
            shaded.append(n % 2 == 1)
    xt = place(s, T, I) if c['ef'] else -1.
    ya = (np.log10(A) - s.yrange[0]) / (s.yrange[1] - s.yrange[0])
    I.assume(I.any([px - xt > 1e-6, xt - px > 1e-6]))
    I.assume(I.any([py - ya > 1e-6, ya - py > 1e-6]))
    want = bool(I.any([px < xt, py > ya]))
    I.check(any(shaded) == want, 'saturated ages and areas beyond the globe are shaded, and nothing else')
    I.reach('shade')


def h_axis(I):
    """split time axis"""
    c = I.case
    a, b = I.real('a', *c['a']), (I.log('b', *c['b']) if c['log'] else I.real('b', *c['b']))
    s, log = chart(I, dict(c, xr=[a, b] if not c.get('swap') else [b, a]))
    lin, lg = s.ax2
    lim = lambda ax: [(q[3]['left'], q[3]['right']) if q[3] else tuple(q[2][:2]) for q in on(log, ax, 'set_xlim')]
    l = lim(lin)
    I.check(len(l) == 1, 'limits of the linear part')
    tmax = 4.5 if bool(a >= 4.5) else 3. if bool(a <= 3.) else a
    box = {id(q[4]): [v for v in q[2][0]] for q in log if q[1] == 'add_axes'}
    x0, y0, w, h = box[id(lin)]
    X0, Y0, W, H = box[id(s.ax)]
    I.check(same(I, [x0, y0, h], [X0, Y0, H]), 'linear part on the left of the chart')
    I.close(w, s.xfrac_linear * W, 'width of the linear part', rtol=1e-7, atol=1e-9)
    split = bool(b < 1.) and bool(b > 0)
    I.check(bool(s.crossover) == split, 'logarithmic below one billion years')
    if split:
        xg, yg, wg, hg = box[id(lg)]
        I.check(same(I, [xg, yg, hg, xg + wg], [X0 + w, Y0, H, X0 + W]), 'logarithmic part on the right of the chart')
        g = lim(lg)
        I.check(len(g) == 1, 'limits of the logarithmic part')
        I.close(g[0][0], l[0][1], 'parts meet', rtol=1e-9)
        I.check(I.all([g[0][1] <= b * (1 + 1e-9), g[0][1] * 10 > b * (1 - 1e-9)]), 'down to the decade of the youngest age')
        I.check(any(q[2][0] == 'log' for q in on(log, lg, 'set_xscale')), 'logarithmic scale')
    else:
        I.close(s.xfrac_linear, 1., 'linear all along', rtol=1e-9)
        I.close(l[0][1], b if bool(b > 0) else 0., 'down to the youngest age', rtol=1e-9, atol=1e-12)
    if bool(tmax > s.t_crossover + 1e-9):
        I.close(l[0][0], tmax, 'up to the oldest age', rtol=1e-9)
    I.close(s.t_max, tmax, 'up to the oldest age', rtol=1e-9)
    I.check([q[2][0] for q in on(log, s.ax, 'set_title')] == ['a\nb'], 'title in lines')
    tk = [q for q in on(log, lin, 'set_xticks') if len(q[2][0])]
    I.check(len(tk) == 1, 'ticks')
    lab = tk[0][3].get('labels') if 'labels' in tk[0][3] else tk[0][2][1]
    I.check(len(lab) == len(tk[0][2][0]) and bool(lab[-1].endswith(' Ga')), 'ticks labelled')
    for i, (t, v) in enumerate(zip(tk[0][2][0], lab)):
        I.close(I.tonum(v[:-3] if i == len(lab) - 1 else v), t, 'tick label', rtol=.00051 if I.sym else .0051, atol=1e-9)
        I.check(I.all([t <= tmax + 1e-9, t >= l[0][1] - 1e-9]), 'ticks within the axis')
    if s.yrange:
        y = [(q[3]['bottom'], q[3]['top']) if q[3] else tuple(q[2][:2]) for q in on(log, lin, 'set_ylim')]
        I.check(len(y) == 1 and same(I, list(y[0]), [10 ** e for e in s.yrange]), 'area axis')
        I.check(any(q[2][0] == 'log' for q in on(log, lin, 'set_yscale')), 'area axis logarithmic')
    I.reach('split' if split else 'linear')


def h_inset(I):
    """probability inset beside an age"""
    c = I.case
    n, fr, P = len(c['pdf']), c['cdf'], c['pdf']
    ts = [I.real('t0', *c['t0'])]
    for i in range(1, n):
        ts.append(ts[-1] + I.real(f'w{i}', c['w'] * .9, c['w'] * 1.1))
    np = I.np
    p = I.cst.Craterpdf.__new__(I.cst.Craterpdf)
    p.ts, p.pdf, p.cdf = np.array(ts), np.array(P), np.array(fr)
    log = []
    root = Node(I, log)
    ax = root.ax
    m = I.mod('craterstats.Craterpdf')
    with Patch(m, ticker=root.ticker):
        p.plot(ax, pt_size=9, color='red', logscale=False)

    def t_of(q):
        if q <= fr[0]:
            return ts[0]
        for i in range(n - 1):
            if q <= fr[i + 1]:
                return ts[i] + (ts[i + 1] - ts[i]) * ((q - fr[i]) / (fr[i + 1] - fr[i]))
        return ts[-1]
    cur = on(log, ax, 'plot')
    I.check(len(cur) == 1 and same(I, xy(cur[0])[0], ts) and same(I, xy(cur[0])[1], P), 'curve of the distribution')
    I.check(P37.curve(cur[0]) == 'red', 'colour of the overplot')
    f = on(log, ax, 'fill_between')
    I.check(len(f) >= 1, 'one-sigma range')
    x, up = xy(f[0])
    g = [.5 - .34134, .5 + .34134]
    for a, b in zip(x, up):
        k = [j for j in range(n) if a is ts[j] or bool(a == ts[j])]
        I.check(len(k) == 1 and same(I, [b], [P[k[0]]]), 'area under the curve')
    got = [j for j in range(n) if any(bool(a == ts[j]) for a in x)]
    i0, i1 = [j for j in range(n) if bool(ts[j] <= t_of(g[0]))], [j for j in range(n) if bool(ts[j] >= t_of(g[1]))]
    I.check(bool(got) and got == list(range(got[0], got[-1] + 1)), 'whole stretch')
    I.check(abs(got[0] - max(i0)) <= 1 and abs(got[-1] - min(i1)) <= 2, 'stretch between the one-sigma limits')
    tk = [q[2][0] for q in on(log, ax, 'set_xticks')][-1]
    lb = [q[2][0] for q in on(log, ax, 'set_xticklabels')][-1]
    I.check(len(tk) == len(lb) >= 2, 'ticks labelled')
    unit = lb[-1].split()[-1]
    u = {'Ga': 1., 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}[unit]
    for t, v in zip(tk, lb):
        v = float(v.replace(unit, '').strip())
        I.close(v * u, t, 'tick label', rtol=1e-4, atol=1e-4 * u)
    I.check(bool(tk[0] == 0), 'from zero')
    top = t_of(.997)
    I.check(I.all([tk[-1] >= top * (1 - 1e-6)]), 'ticks reach beyond the distribution')
    I.check(any(bool(q[3].get('bottom', q[2][0] if q[2] else None) == 0) for q in on(log, ax, 'set_ylim')), 'probability from zero')
    # the inset is shifted by the flank of its peak
    for left in (0, 1):
        o = p.offset(left)
        half = [j for j in range(n) if P[j] > max(P) / 2]
        e = [ts[half[0]], ts[half[-1]]]
        w = (1 - e[1] / tk[-1]) - .1 if left else -e[0] / tk[-1] + .1
        I.close(o, w, 'peak beside the age', rtol=1e-6, atol=1e-6)
    I.reach('inset')


def c_nodes(t):
    c = []
    for fill in (0, 3, 8, 20):
        c.append(dict(kind='k', shape=(2, 3), free=[(0, 0), (1, 2)], fill=fill, xr=[4.2, .1], dmin=.5))
    c.append(dict(kind='k', shape=(3, 2), free=[(0, 1), (2, 1)], fill=5, xr=[4.2, 2.], dmin=2.))
    for k in ('err', 'age'):
        c.append(dict(kind=k, shape=(2, 3), free=[(0, 0), (1, 2)], xr=[4.2, .1], dmin=1.))
        c.append(dict(kind=k, shape=(3, 2), free=[(0, 1), (2, 0), (1, 1)], xr=[4.2, 2.], dmin=.015))
    return c


def c_shade(t):
    c = []
    for xr, pieces in (([4.2, .1], [(.001, .0999, 1), (.101, 2.99, 1), (3.01, 4.19, 0), (4.21, 5., 0)]), ([4., 2.], [(.1, 1.999, 0), (2.001, 3.99, 0), (4.01, 5., 0)]), ([3., .01], [(.0101, 2.99, 1), (3.01, 4., 0)])):
        for lo, hi, lg in pieces:
            for A in (None, (1.01, 4.99)):
                c.append(dict(xr=xr, T=[lo, hi], log=lg, A=A, ef=1))
    c.append(dict(xr=[4.2, .1], T=[1., 2.], log=0, A=(1.01, 4.99), ef=0))
    c.append(dict(xr=[4.2, .1], T=[1., 2.], log=0, A=(5.1, 8.), ef=0))
    c.append(dict(xr=[4.2, .1], T=[3.1, 4.], log=0, A=(1.01, 4.99), ef=1, dmin=2.))
    return c


def c_axis(t):
    c = []
    for a in ((2., 2.9), (3.1, 4.4), (4.5, 5.)):
        for b, lg in (((.001, .009), 1), ((.02, .9), 1), ((1.01, 1.9), 0), ((0., 0.), 0)):
            c.append(dict(a=a, b=b, log=lg, dims='10x10' if lg else '12x8'))
    c.append(dict(a=(3.1, 4.4), b=(.02, .9), log=1, swap=1))
    c.append(dict(a=(4., 4.4), b=(3., 3.5), log=0))
    c.append(dict(a=(3.25, 3.3), b=(3., 3.1), log=0))
    c.append(dict(a=(3.8, 3.9), b=(3.5, 3.6), log=0))
    c.append(dict(a=(4.4, 4.5), b=(4.2, 4.25), log=0))
    return c


def c_inset(t):
    c = []
    P6, F6 = [.2, 1., 2., 1.5, .5, .1], [.02, .2, .55, .8, .99, 1.]
    P9, F9 = [0., 1., 3., 5., 4., 2., 1., .5, 0.], [.001, .05, .2, .45, .7, .86, .96, .999, 1.]
    for t0, w in ((.5, .05), (3., .12), (.012, .0015), (.0002, .00003), (1.9, .3)):
        for P, F in ((P6, F6), (P9, F9)):
            c.append(dict(pdf=P, cdf=F, t0=[t0, t0 * 1.05], w=w))
    return c


HARNESSES = [
    Harness('nodes', h_nodes, c_nodes, bounds='grids of 6 nodes, two or three of them free: crater numbers 0..12, uncertainties 0..3, ratios .05..20'),
    Harness('shade', h_shade, c_shade, bounds='all saturation ages, all areas of the globe within the chart or above it, any point of the chart; three time axes'),
    Harness('axis', h_axis, c_axis, bounds='oldest age 2..5 Ga, youngest .001..3.5 Ga or zero'),
    Harness('inset', h_inset, c_inset, bounds='6 or 9 samples, ages of five magnitudes (varied by 5 and 10 per cent)'),
]
ASSUMPTIONS = ['matplotlib is a recorder; a colour scale divides its range into equal parts']

"""P41: the axes of a chart have the scale, size, limits and labels they state."""
import math
import re
from symx.check import Harness
from harness import P37
from harness.P24 import Any, Patch
from harness.P37 import Node, on, seq, same
from harness.util import abs_le

LOGS = ['cumulative', 'differential', 'R-plot', 'Hartmann']
QUANT = {'cumulative': ('umulative', 'km$^{-2}$'), 'differential': ('ifferential', 'km$^{-3}$'), 'R-plot': ('elative', '(R)'), 'Hartmann': ('bin', 'km$^{-2}$'), 'chronology': ('umulative', 'km$^{-2}$'), 'rate': ('rate', 'km$^{-2}$ Ga$^{-1}$')}


def space(I, s, f):
    """run a layout method with a recorder for matplotlib"""
    log = []
    m = I.mod('craterstats.Craterplotset')
    root = Node(I, log)
    r = lambda n: getattr(root, n)
    with Patch(m, plt=r('plt'), ticker=r('ticker'), mfig=r('mfig'), patheffects=r('pe'), patches=r('patches'), fm=r('fm'), Polygon=r('Polygon')):
        f(s)
    fig = [e for e in log if e[1] == 'Figure']
    I.check(len(fig) == 1 and fig[0][4] is s.fig, 'one figure')
    size = fig[0][3].get('figsize', fig[0][2][0] if fig[0][2] else None)
    boxes = {}
    for e in on(log, s.fig, 'add_axes'):
        p = seq(e[2][0])
        boxes[id(e[4])] = (e[4], [p[0] * size[0] * 2.54, p[1] * size[1] * 2.54, p[2] * size[0] * 2.54, p[3] * size[1] * 2.54])
    return log, [v * 2.54 for v in size], boxes


def limits(log, ax, which):
    """(first, second) limit of an axis, as last set"""
    r = None
    for e in on(log, ax, f'set_{which}lim', f'set_{which}bound'):
        k = e[3]
        a = list(e[2]) if not (e[2] and hasattr(e[2][0], '__len__')) else list(e[2][0])
        lo = k.get('left', k.get('bottom', k.get('lower', a[0] if a else None)))
        hi = k.get('right', k.get('top', k.get('upper', a[1] if len(a) > 1 else None)))
        r = (lo, hi)
    return r


def ticks(log, ax):
    """positions and labels of the major ticks"""
    p = [e for e in on(log, ax, 'set_xticks') if not e[3].get('minor') and len(seq(e[2][0]))]
    if not p:
        return None, None
    lab = p[-1][3].get('labels', p[-1][2][1] if len(p[-1][2]) > 1 else None)
    for e in on(log, ax, 'set_xticklabels'):
        lab = e[2][0]
    return seq(p[-1][2][0]), lab


def dims(I, c):
    if c['dims'] == 'fixed':
        return '9x6' if c['pres'] != 'Hartmann' else '6x9', [9., 6.] if c['pres'] != 'Hartmann' else [6., 9.]
    if c['dims'] == 'one':
        v = I.real('N', 1., 5.)
        return I.token(v), [v]
    v = [I.real('A', 3., 20.), I.real('B', 3., 20.)]
    if c['pres'] == 'Hartmann':
        I.assume(v[0] <= v[1])
    return I.token(v[0]) + 'x' + I.token(v[1]), v


def chart(I, c):
    d, v = dims(I, c)
    np = I.np
    plots = []
    for i, (ty, b, sig) in enumerate(c.get('plots', [])):
        plots.append(Any(type=ty, binning=b, hide=0, cratercount=Any(n_sigma={'bin': [1.], 'sdaa': [1.]} if sig else None, generate_bins=lambda b, r, *a, **k: np.array(list(c['bins'])) if b == c['plots'][0][1] else None)))
    s = I.cst.Craterplotset(craterplot=plots, cf=None, pf=None, presentation=c['pres'], legend='', print_dimensions=d, style=c.get('style', 'natural'), title=c.get('title'), pt_size=I.real('pt', 4., 14.) if c['dims'] == 'one' else 9., ra_show=c.get('ra', 1),
                            ref_diameter=c.get('ref', 1.), bins=bool(c.get('bins')))
    free = c['dims'] != 'box'
    s.xrange = np.array([I.real('x0', *c['x0']), I.real('x1', *c['x1']) if free else c['x1'][0]])
    s.yrange = np.array([I.real('y0', -8., -3.), I.real('y1', -1., 4.)]) if c['dims'] == 'one' else np.array([-6.5, 1.])
    s.ra_offset = c.get('off', 0)
    s.max_y = I.real('top', -2.9, -1.1) if free else -2.
    if c['pres'] in LOGS:
        I.assume(s.xrange[1] - s.xrange[0] >= 1)
    return s, v


def h_layout(I):
    """size, limits, ticks and titles of a chart"""
    c = I.case
    if c.get('title') is True:
        c = dict(c, title=I.text('title', 2, 'a|'))
    s, v = chart(I, c)
    x, y = list(s.xrange), list(s.yrange)
    log, size, boxes = space(I, s, lambda s: s.CreatePlotSpace())
    ax = s.ax
    I.check(id(ax) in boxes, 'axes on the figure')
    X, Y, W, H = boxes[id(ax)][1]
    I.check(I.all([X >= 0, Y >= 0, X + W <= size[0] + 1e-9, Y + H <= size[1] + 1e-9]), 'axes inside the figure')
    I.check(same(I, list(limits(log, ax, 'x')), x), 'x axis over the chosen range')
    lo, hi = limits(log, ax, 'y')
    I.close(lo, 10 ** y[0], 'y axis from the chosen limit', rtol=1e-7)
    I.close(hi, 10 ** y[1], 'y axis to the chosen limit', rtol=1e-7)
    I.check(any(e[2][0] == 'log' for e in on(log, ax, 'set_yscale')), 'densities on a logarithmic axis')
    dx, dy = x[1] - x[0] if c['pres'] in LOGS else x[0] - x[1], y[1] - y[0]
    if c['pres'] in LOGS[:3]:
        k = 2. if c['pres'] == 'differential' else 1.
        I.close(H * dx * k, W * dy, 'decades of both axes in proportion', rtol=1e-7)
    else:
        I.close(H, W, 'square chart', rtol=1e-7)
    if len(v) == 1:
        I.close(W, v[0] * dx, 'requested size of a decade', rtol=1e-7)
    else:
        I.check(I.all([W <= v[0] * (1 + 1e-7), H <= v[1] * (1 + 1e-7)]), 'within the requested box')
        I.check(I.any([W >= v[0] * (1 - 1e-7), H >= v[1] * (1 - 1e-7)]), 'filling the requested box')
    for o, b in boxes.values():
        if o is not ax and any(e[2][0] == 'log' for e in on(log, o, 'set_xscale')):
            I.check(same(I, b, [X, Y, W, H]), 'minor ticks on the same place')
            a, b = limits(log, o, 'x')
            I.close(a, 10 ** x[0], 'minor ticks from the chosen limit', rtol=1e-7)
            I.close(b, 10 ** x[1], 'minor ticks to the chosen limit', rtol=1e-7)
    # titles
    xt = [e[2][0] for e in on(log, ax, 'set_xlabel')]
    yt = [e[2][0] for e in on(log, ax, 'set_ylabel')]
    I.check(len(xt) == 1 and ('Age, Ga' in xt[0] if c['pres'] not in LOGS else 'Diameter' in xt[0]), 'title of the x axis')
    I.check(len(yt) == 1 and all(q in yt[0] for q in QUANT[c['pres']]), 'title of the y axis: quantity and unit')
    if c['pres'] not in LOGS:
        m = re.search(r'N\(>\s*([\d.e+-]+)', yt[0])
        I.check(bool(m) and abs(float(m.group(1)) - c.get('ref', 1.)) < 1e-9, 'reference diameter named')
    if c['pres'] == 'Hartmann':
        I.check(('equivalent' in yt[0]) == any(b != 'root-2' for _, b, _ in c.get('plots', [])), 'equivalent bins named')
    t = [e[2][0] for e in on(log, ax, 'set_title')]
    if c.get('title'):
        want = c['title'].replace('|', '\n')
        I.check(len(t) == 1, 'title')
        I.eqtext(t[0], want, 'title in lines')
    else:
        I.check(not t or not t[-1], 'no title')
    # ticks
    p, lab = ticks(log, ax)
    if c['pres'] in ('chronology', 'rate'):
        I.check(p is None, 'regular ticks of the age axis')
    elif c['pres'] == 'Hartmann' or c.get('style') == 'root-2':
        ks = [k for k in range(-10, 11) if bool(math.log10(2. ** k) >= x[0]) and bool(math.log10(2. ** k) <= x[1])]
        I.check(len(p) == len(ks) and len(lab) == len(p) and all(abs(a - math.log10(2. ** k)) < 1e-9 for a, k in zip(p, ks)), 'ticks at powers of two')
        for i, (k, l) in enumerate(zip(ks, lab)):
            n, u = re.match(r'\s*([\d.]+)\s*(\$\\,\$)?\s*(k?m)?$', l).group(1, 3)
            I.check(abs(float(n) * (1. if k >= 0 else 1e-3) / 2. ** k - 1) < (.025 if k < 0 else 1e-9), 'tick label')
            I.check(u in (None, 'km' if k >= 0 else 'm') and (u is not None or not (i == 0 and k < 0 or k == 0)), 'unit of the tick label')
    else:
        es = [k for k in range(-8, 9) if bool(x[0] <= k) and bool(x[1] >= k)]
        I.check(p is not None and len(p) == len(es) and all(abs(a - k) < 1e-9 for a, k in zip(p, es)), 'ticks at decades')
        for k, l in zip(es, lab):
            n, u = re.match(r'\s*([\d.e+]+)\s*(?:\$\\,\$)?\s*(k?m)$', l).group(1, 2)
            I.check(abs(float(n) * (1. if u == 'km' else 1e-3) / 10. ** k - 1) < 1e-9, 'tick label with unit')
    # randomness sub-plot
    ra = [(o, b) for o, b in boxes.values() if o is getattr(s, 'ax_ra', 0)]
    I.check(len(ra) == int(bool(c.get('ra', 1)) and c['pres'] in LOGS and any(ty == 'data' and sig for ty, _, sig in c.get('plots', []))), 'randomness sub-plot where requested and stored')
    for o, b in ra:
        I.check(same(I, [b[0], b[2]], [X, W]) and same(I, list(limits(log, o, 'x')), x), 'sub-plot over the diameters of the chart')
        gap = (b[1] - Y) / H * dy - (s.max_y - y[0])
        I.check(I.all([gap >= c.get('off', 0) / 20 - 1e-9, gap <= c.get('off', 0) / 20 + dy / 8]), 'sub-plot above the data, shifted by the offset')
        if c.get('off'):
            s2, _ = chart(I, dict(c, off=0))
            _, _, bx = space(I, s2, lambda s: s.CreatePlotSpace())
            b2 = bx[id(s2.ax_ra)][1]
            I.close((b[1] - b2[1]) * dy, H * c['off'] / 20., 'shifted by twentieths of a decade', rtol=1e-7, atol=1e-9)
        a, z = limits(log, o, 'y')
        I.close(a + z, 0., 'zero in the middle', atol=1e-9)
    # bin boundaries
    tx = [e for e in on(log, ax, 'text')]
    if c.get('bins') and any(ty == 'data' for ty, _, _ in c['plots']):
        for b in c['bins']:
            own = [e for e in tx if bool(abs_le(I, e[2][0] - math.log10(b), 1e-9))]
            inside = I.all([x[0] < math.log10(b), x[1] > math.log10(b)])
            I.check((len(own) > 0) == bool(inside), 'bin boundaries inside the axis marked')
            for e in own:
                I.check(abs(float(e[2][2]) / (b / 10 ** math.floor(math.log10(b))) - 1) < .05, 'leading digits of the boundary')
        for e in on(log, ax, 'fill_between'):
            a = seq(e[2][0])
            I.check(any(abs(10 ** a[0] / p - 1) < 1e-9 and abs(10 ** a[-1] / q - 1) < 1e-9 for p, q in zip(c['bins'], c['bins'][1:])), 'shading of one bin')
    else:
        I.check(not tx, 'boundaries where requested')
    I.reach('layout')


def h_map(I):
    """page of a map"""
    c = I.case
    if c.get('title') is True:
        c = dict(c, title=I.text('title', 2, 'a|'))
    d, v = dims(I, c)
    s = I.cst.Craterplotset(craterplot=[], cf=None, pf=None, presentation='map', legend='', print_dimensions=d, title=c.get('title'), pt_size=I.real('pt', 4., 14.))
    log, size, boxes = space(I, s, lambda s: s.create_map_plotspace())
    X, Y, W, H = boxes[id(s.ax)][1]
    I.check(I.all([X >= 0, Y >= 0, X + W <= size[0] + 1e-9, Y + H <= size[1] + 1e-9]), 'map inside the figure')
    if len(v) == 2:
        I.check(same(I, [W, H], v), 'map of the requested size')
        I.close(s.aspect_ratio * W, H, 'aspect ratio', rtol=1e-7)
    else:
        I.close(W, H, 'square map', rtol=1e-7)
    t = [e[2][0] for e in on(log, s.ax, 'set_title')]
    I.check(len(t) == (1 if c.get('title') else 0), 'title')
    if t:
        I.eqtext(t[0], c['title'].replace('|', '\n'), 'title in lines')
    I.reach('map')


def c_layout(t):
    c = []
    D = [('data', 'root-2', 1), ('c-fit', 'x2', 0)]
    R = [((-2.9, -2.45), (.1, .5)), ((-.3, .1), (1.8, 2.1)), ((.1, .5), (2.3, 2.7)), ((-3., -2.55), (-.9, -.5))]
    for i, p in enumerate(LOGS):
        for j, (a, b) in enumerate(R):
            for k, st in enumerate(('natural', 'root-2')):
                if t != 'quick' or (i + j + k) % 2 == 0:
                    c.append(dict(pres=p, x0=a, x1=b, dims=['one', 'box', 'fixed'][(i + j // 2 + k) % 3], style=st, title=[None, True, 'Abc|d e'][(i + j) % 3], plots=[[], D, D[:1], [('poisson', 'x2', 1)]][(i + 2 * j + k) % 4], off=[0, 7, -3][j % 3], ra=int((i, j) != (1, 0))))
    for i, p in enumerate(('chronology', 'rate')):
        for j, r in enumerate((1., 10., .5, 20., 1.5, .1)):
            c.append(dict(pres=p, x0=(4., 4.5), x1=(0., .5), dims=['one', 'box', 'fixed'][(i + j) % 3], ref=r, title=[None, True][j % 2], plots=D if j == 0 else []))
    for q in (D[:1], D[1:] + D[:1], [('poisson', 'x2', 0)]):
        c.append(dict(pres='Hartmann', x0=(-.2, .1), x1=(1.9, 2.), dims='fixed', plots=q))
    B = [.05, .1, .5, 2., 3.5, 40.]
    c.append(dict(pres='cumulative', x0=(-1.2, -.4), x1=(.1, .9), dims='one', plots=D, bins=B))
    c.append(dict(pres='differential', x0=(-1.2, -1.1), x1=(.4, .7), dims='box', plots=D[::-1], bins=B, ra=0) if 0 else dict(pres='R-plot', x0=(-1., -.2), x1=(.4, .7), dims='box', plots=D[:1], bins=B, ra=0))
    c.append(dict(pres='differential', x0=(-1.2, -1.1), x1=(.4, .7), dims='box', plots=[('c-fit', 'x2', 0)], bins=B))
    return c


def c_map(t):
    return [dict(pres='map', dims=d, title=q) for d in ('one', 'box') for q in (None, True)]


HARNESSES = [
    Harness('layout', h_layout, c_layout, bounds='all axis limits within half-open stretches of up to two decades (fractions of a decade included), all sizes (1..5 cm per decade, boxes of 2..20 cm), all point sizes 4..14; six presentations, both styles, titles of two free characters, offsets and marks of a randomness sub-plot'),
    Harness('map', h_map, c_map, bounds='all sizes, titles of two free characters'),
]
ASSUMPTIONS = ['matplotlib is a recorder; Hartmann charts are square, so boxes wider than high are excluded for them']

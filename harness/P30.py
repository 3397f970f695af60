"""P30: randomness-analysis results survive being written and read back; stored trials are kept or replaced as requested."""
import os
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.util import near

G4, G7 = 5.01e-4, 5.01e-7
MEASURES = ['m2cnd', 'sdaa']


def analysis(I, src, out=None, diam=(1.1,), n_event=None):
    """the object as its constructor leaves it for a spatial count with these craters"""
    m = I.mod('craterstats.Randomnessanalysis')
    S = I.cst.Spatialcount

    def init(self, filename=None, area_file=None):
        import re
        self.filename, self.name = filename, re.sub(r'_?CRATER_?', '', os.path.splitext(os.path.basename(filename))[0])
        self.diam, self.fraction = list(diam), [1.] * len(diam)
        self.lon, self.lat = [1. * i for i in range(len(diam))], [0.] * len(diam)
        self.planetary_radius, self.area, self.perimeter = 1737.4, 1000., 200.
        self.xr, self.yr, self.enclosing_area, self.polygon = (-10., 10.), (-5., 5.), 2000., Any()

    with Patch(S, __init__=init):
        return I.cst.Randomnessanalysis(src, out=out)


def folder(I):
    p = os.path.join(I.tmp, 'data')
    if not I.sym:
        os.makedirs(p, exist_ok=True)
    return p


def stats(n_sigma):
    return Any(n_sigma=n_sigma, m0=1., mn=1., sd=1., percentile=50., p2=None)


def h_file(I):
    """write, then read as analysis and as chart column"""
    c = I.case
    I.opaque_numbers()
    I.capture_writes()
    base = folder(I)
    src = os.path.join(base, c.get('src', 'set.scc'))
    out = os.path.join(I.tmp, c['out']) if c.get('out') else os.path.join(base, 'set')
    a = analysis(I, src, out)
    T = c['trials']
    want, sig = {}, {}
    for measure, bins in c['bins']:
        want[measure] = {b: [I.real(f'{measure}{b}_{t}', 1e-3, 1e4) for t in range(T.get(measure))] for b in bins}
        sig[measure] = {b: (I.real(f's{measure}{b}', 1e-3, 90) * (1 if i % 2 == 0 else -1) if (b, measure) not in c.get('nan', ()) else float('nan')) for i, b in enumerate(bins)}
        a.montecarlo[measure] = {'n_trials': T[measure], 'trials': {b: list(v) for b, v in want[measure].items()}, 'stats': {b: stats(v) for b, v in sig[measure].items()}}
    a.write()
    b2 = analysis(I, src, None if c.get('beside') else out)
    I.check(sorted(b2.montecarlo.keys()) == sorted(want.keys()), 'measures')
    for measure in want:
        g = b2.montecarlo[measure]
        I.check(g['n_trials'] == T[measure], 'number of trials')
        I.check(list(g['trials'].keys()) == list(want[measure].keys()), 'bins')
        for b, w in want[measure].items():
            I.check(len(g['trials'][b]) == len(w), 'number of trial values')
            I.check(I.all([near(I, x, y, G7) for x, y in zip(g['trials'][b], w)]), 'trial values in order')
    # the chart column of the crater count
    cc = chart(I, src)
    if c.get('out'):
        I.reach('other name')
        return
    ns = cc.n_sigma
    I.check(ns is not None, 'analysis found for the crater count')
    order = list(ns['bin'])
    allb = {b for m in sig for b in sig[m]}
    I.check(sorted(order, key=float) == order and set(order) == allb and len(order) == len(allb), 'bins of the chart')
    I.check(set(ns.keys()) - {'bin'} == set(sig), 'measures of the chart')
    for measure in sig:
        I.check(len(ns[measure]) == len(order), 'one entry per bin')
        for b, v in zip(order, ns[measure]):
            if b not in sig[measure]:
                I.check(v == '-', 'gap kept')
            elif isinstance(sig[measure][b], float) and sig[measure][b] != sig[measure][b]:
                I.check(v == 'nan', 'undefined value kept')
            else:
                x, w = I.tonum(v), sig[measure][b]
                I.check(I.any([near(I, x, w, G4), near(I, -x, -w, G4)]), 'n sigma of the bin')
    tr = dict(zip(sorted(sig), cc.n_trials))
    for measure in sig:
        I.check(int(tr[measure]) == T[measure], 'number of trials of the chart')
    I.reach('file')


def chart(I, src):
    C = I.cst.Cratercount
    with Patch(C, ReadSCCfile=lambda s: None, ReadSHPfile=lambda s: None):
        return C(src)


def h_again(I):
    """a file read, possibly extended by the other measure, and written again"""
    c = I.case
    I.opaque_numbers()
    I.capture_writes()
    src = os.path.join(folder(I), 'set.scc')
    out = os.path.join(I.tmp, 'data', 'set')
    a = analysis(I, src, out)
    bins, T = ['-1', '0.5'], 2
    val = {}
    for k, measure in enumerate(c['order']):
        if k:
            a = analysis(I, src, out)
            for m0 in a.montecarlo:
                a.montecarlo[m0]['stats'] = {b: stats(1.) for b in a.montecarlo[m0]['trials']}
        val[measure] = {b: [I.real(f'{measure}{b}_{t}', 1e-3, 1e4) for t in range(T + k)] for b in bins[k:]}
        a.montecarlo[measure] = {'n_trials': T + k, 'trials': {b: list(v) for b, v in val[measure].items()}, 'stats': {b: stats(1.) for b in val[measure]}}
        a.write()
    a = analysis(I, src, out)
    for k, measure in enumerate(c['order']):
        if measure in c['order'][k + 1:]:
            continue
        g = a.montecarlo[measure]
        I.check(g['n_trials'] == T + k and list(g['trials'].keys()) == list(val[measure].keys()), 'trials and bins')
        for b, w in val[measure].items():
            I.check(len(g['trials'][b]) == len(w), 'number of trial values')
            I.check(I.all([near(I, x, y, 2.1 * G7) for x, y in zip(g['trials'][b], w)]), 'trial values in order')
    I.reach('again')


def h_run(I):
    """which trials are kept and which are run"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    # bins with 1..5 craters
    counts = c['counts']
    diam = [2 ** (k / 2) * (1.05 + .01 * j) for k, n in enumerate(counts) for j in range(n)]
    src = os.path.join(I.tmp, 'set.scc')
    a = analysis(I, src, os.path.join(I.tmp, 'nothing'), diam=diam)
    stored, T = {}, {}
    for measure in c['stored']:
        T[measure] = I.int('stored_' + measure, 1, 5000)
        stored[measure] = {'n_trials': T[measure], 'trials': {'0': [1., 2.]}}
        a.montecarlo[measure] = stored[measure]
    before = {measure: (dict(v), dict(v['trials'])) for measure, v in stored.items()}
    calls = []

    def run(self_pp, b, n, *r, **k):
        calls.append((self_pp.trials, self_pp.measure, float(b), int(n)))
        return ['trials', len(calls)]

    want = I.int('requested', 1, 5000)
    R = I.cst.Randomnessanalysis

    def grid(self, n):
        self.hp = None

    with Patch(R, establish_hpx=grid):
        with Patch(m, montecarlo_pp=run, montecarlo_serial=run, print=lambda *x, **k: None):
            a.run_montecarlo(want, c['measure'])
    for measure in stored:
        if measure != c['measure']:
            v = a.montecarlo[measure]
            I.check(v is stored[measure] and dict(v) == before[measure][0] and dict(v['trials']) == before[measure][1], 'the other measure is kept')
    keep = c['measure'] in stored and bool(T[c['measure']] >= want)
    g = a.montecarlo[c['measure']]
    if keep:
        I.check(not calls and g['n_trials'] == T[c['measure']] and g['trials'] == before[c['measure']][1], 'stored trials reused')
    else:
        I.check(g['n_trials'] == want, 'as many trials as requested')
        for t, mm, b, n in calls:
            I.check(t == want, 'as many trials as requested')
            I.check(mm == c['measure'], 'measure of the trials')
            I.check(any(abs(b / 2 ** (k / 2) - 1) < 1e-9 and n == nn for k, nn in enumerate(counts)), 'number of craters and diameter of the bin')
        least = 4 if c['measure'] == 'sdaa' else 3
        I.check(sorted(n for _, _, _, n in calls) == sorted(n for n in counts if n >= least), 'bins with enough craters')
        I.check(sorted(v[1] for v in g['trials'].values()) == list(range(1, len(calls) + 1)), 'trials of every bin')
        for b, v in g['trials'].items():
            I.check(abs(2 ** float(b) / calls[v[1] - 1][2] - 1) < 1e-2, 'trials of their own bin')
    I.reach('kept' if keep else 'run')


class Axes(Any):
    def __init__(self):
        self.__dict__['drawn'] = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'spines':
            return {'top': Axes()}

        def record(*a, **k):
            self.drawn.append((n, a, k))
        return record


def h_chart(I):
    """the chart above a plot"""
    c = I.case
    I.opaque_numbers()
    bins, gaps = c['bins'], c.get('gaps', [])
    val, col = {}, {}
    for m in c['measures']:
        val[m], col[m] = [], []
        for i, b in enumerate(bins):
            if (m, i) in gaps:
                val[m].append(None)
                col[m].append('-')
                continue
            v = I.log(f'{m}{i}', 1e-3, 100)
            s = -1 if (i + len(m)) % 2 else 1
            val[m].append((v, s))
            col[m].append(I.tostr(v * s))
    P = I.cst.Craterplot
    p = P.__new__(P)
    ns = {'bin': list(bins)}
    ns.update(col)
    p.cratercount = Any(n_sigma=ns, n_trials=['300'] * len(c['measures']))
    p.psym, p.colour, p.type = 0, 'red', 'data'
    ax = Axes()
    cps = Any(ax_ra=ax, grey=['g'] * 8, xrange=[-3., 3.], invert=0, marker_def=[{'markersize': 1., 'marker': 's'}], ra_legend_drawn=False,
              palette=['k', 'w'], scaled_pt_size=9., measure=list(c['measures']), sz_ratio=1.)
    p.oplot_n_sigma(cps)
    lines = [(a, k) for n, a, k in ax.drawn if n == 'plot' and len(a[0]) == len(bins) and 'marker' in k]
    I.check(len(lines) == len(c['measures']), 'one line per measure')
    styles = I.cst.LINESTYLES
    for m in c['measures']:
        own = [a for a, k in lines if k['linestyle'] == styles[m]]
        I.check(len(own) == 1, 'line of the measure')
        x, y = own[0]
        for i, b in enumerate(bins):
            I.check(abs(float(x[i]) - (float(b) + .25) * 0.30102999566398120) < 1e-9, 'at the middle of its bin')
            if val[m][i] is None:
                I.check(y[i] is None or y[i] != y[i], 'gap kept')
            else:
                v, s = val[m][i]
                s = -s if m == 'sdaa' else s
                I.check(near(I, y[i] * s, v ** .6, 1e-6), 'n sigma on the scaled axis, separation upwards')
    I.reach('chart')


def c_chart(t):
    m, s = MEASURES
    return [dict(bins=['-1', '-0.5', '0'], measures=[m, s]), dict(bins=['-0.5', '0'], measures=[m]), dict(bins=['-0.5'], measures=[s]), dict(bins=['1'], measures=[m]),
            dict(bins=['2', '2.5'], measures=[s, m], gaps=[(m, 0)]), dict(bins=['-3', '-2', '0.5'], measures=[m, s], gaps=[(s, 1), (s, 2)])]


def c_file(t):
    c = []
    B = ['-9.5', '-0.5', '1e-16', '2']
    m, s = MEASURES
    c.append(dict(bins=[(m, B[:1])], trials={m: 2}))
    c.append(dict(bins=[(s, B[1:3])], trials={s: 1}))
    c.append(dict(bins=[(m, B[:3]), (s, B[:3])], trials={m: 2, s: 2}))
    c.append(dict(bins=[(s, B[1:3]), (m, B[:3])], trials={m: 1, s: 3}))
    c.append(dict(bins=[(m, B[1:4]), (s, B[2:4])], trials={m: 3, s: 1}))
    c.append(dict(bins=[(m, B[:2]), (s, [])], trials={m: 2, s: 2}))
    c.append(dict(bins=[(m, []), (s, [])], trials={m: 2, s: 2}))
    c.append(dict(bins=[(m, [])], trials={m: 1}))
    c.append(dict(bins=[(m, B[:2])], trials={m: 2}, nan=((B[0], m),)))
    c.append(dict(bins=[(m, B[1:2]), (s, B[1:2])], trials={m: 1, s: 1}, out='other'))
    c.append(dict(bins=[(m, B[1:2])], trials={m: 1}, src='set_CRATER.shp'))
    c.append(dict(bins=[(s, B[1:3])], trials={s: 2}, src='CRATER_set.shp'))
    c.append(dict(bins=[(s, B[1:3])], trials={s: 2}, src='CRATER_set.shp', beside=1))
    c.append(dict(bins=[(m, B[1:3])], trials={m: 2}, beside=1))
    if t != 'quick':
        c += [dict(bins=[(m, B), (s, B)], trials={m: 4, s: 4}), dict(bins=[(s, B[:3]), (m, B[1:])], trials={m: 5, s: 3}), dict(bins=[(m, B[::2]), (s, B[1::2])], trials={m: 12, s: 11})]
    return c


def c_run(t):
    c = []
    for counts in ([5, 3, 1, 4], [2, 1], [3], [0, 6]):
        for measure in MEASURES:
            for stored in ([], [measure], [x for x in MEASURES if x != measure], MEASURES, MEASURES[::-1]):
                c.append(dict(counts=counts, measure=measure, stored=stored))
    return c if t != 'quick' else c[:10] + c[10::2]


HARNESSES = [
    Harness('file', h_file, c_file, bounds='both measures in any order, 0..3 (thorough 4) bins each incl. different ones, 1..3 (thorough 12) trials, all trial values and n-sigma values'),
    Harness('again', h_again, lambda t: [dict(order=o) for o in (['m2cnd', 'sdaa'], ['sdaa', 'm2cnd'], ['m2cnd', 'm2cnd'])] + ([dict(order=['m2cnd', 'sdaa', 'm2cnd'])] if t != 'quick' else []),
            bounds='2 (thorough 3) successive runs, all trial values'),
    Harness('chart', h_chart, c_chart, bounds='1..3 bins, both measures, gaps; all n-sigma values'),
    Harness('run', h_run, c_run, bounds='all stored and requested numbers of trials 1..5000, both measures, 1..4 bins of 0..6 craters'),
]
ASSUMPTIONS = ['printed numbers read back within half a unit of the last digit', 'the spatial count is given; trials come from a stand-in']

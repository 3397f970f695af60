"""P25: successive plots in one process do not influence each other."""
import copy
import math
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.util import binned_count, near, new_count, series

PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann', 'incremental']
PF = [-2., -3., .4, .1]


# ---------------------------------------------------------------- comparing
def is_array(v):
    return bool(getattr(v, 'ndim', 0)) and hasattr(v, 'tolist')


def flat(v, path='', seen=None):
    """leaves of a value with their paths (containers, arrays and plain objects are opened)"""
    if isinstance(v, dict):
        out = [(path + '#', len(v))]
        for k in sorted(v, key=str):
            out += flat(v[k], f'{path}.{k}')
        return out
    if isinstance(v, (set, frozenset)):
        return [(path + '{}', sorted(v, key=str))]
    if isinstance(v, (list, tuple)) or is_array(v):
        v = list(v)
        out = [(path + '#', len(v))]
        for i, e in enumerate(v):
            out += flat(e, f'{path}[{i}]')
        return out
    return [(path, v)]


def kept(I, a, b, label):
    """two flattened values agree"""
    if [p for p, _ in a] != [p for p, _ in b]:
        I.check(False, label)
        return
    conds = []
    for (p, x), (_, y) in zip(a, b):
        if x is y:
            continue
        if type(x).__name__ in ('SymStr', 'SymTok') or isinstance(x, (str, bytes, bool, type(None), list)) or isinstance(y, (str, bytes, bool, type(None), list)):
            conds.append(x == y)
        elif callable(x) or callable(y):
            conds.append(False)
        elif isinstance(x, float) and isinstance(y, float):
            conds.append(x == y or math.isnan(x) and math.isnan(y) or abs(x - y) <= 1e-9 * abs(x))
        else:
            try:
                conds.append(I.all([x - y <= 1e-9, y - x <= 1e-9]) if not I.sym else I.all([x <= y + 1e-9, y <= x + 1e-9]))
            except TypeError:
                conds.append(x == y)
    I.check(I.all(conds) if conds else True, label)


def state(o):
    """the settings held by an object"""
    return flat({k: v for k, v in vars(o).items() if isinstance(v, (int, float, str, list, tuple, dict, type(None))) or is_array(v) or type(v).__name__ in ('Sym', 'SymStr')})


def shared(I):
    """tables and defaults that all plots of a process share"""
    c = I.cst.constants if hasattr(I.cst, 'constants') else I.cst
    return flat({k: getattr(c, k) for k in dir(c) if k.isupper() and isinstance(getattr(c, k), (list, tuple, dict))})


# ---------------------------------------------------------------- one count, several requests
def functions(I):
    pf = I.cst.Productionfn({'production': [{'name': 'x', 'coefficients': list(PF)}]}, 'x')
    pf.range = [1e-4, 1e4]
    return pf


def op(I, cc, o, pf, rng, tmp):
    k = o[0]
    if k == 'plot':
        return cc.getplotdata(o[1], o[2], range=rng if 'r' in o[3] else None, resurfacing=1 if 's' in o[3] else 0, showall=1 if 'a' in o[3] else 0, pf=pf if 'p' in o[3] or 's' in o[3] else None)
    if k == 'fit':
        return pf.fit(cc.getplotdata(o[1], o[2], range=rng, pf=pf))
    if k == 'bins':
        return cc.generate_bins(o[1], rng if len(o) > 2 else cc.diam)
    if k == 'range':
        return cc.decode_range(o[2], o[1], 1)
    if k == 'curve':
        return pf.getplotdata(o[1], -3., range=rng)
    if k == 'adj':
        cc.getplotdata('cumulative', o[1])
        return cc.resurf_adj(pf, rng)
    raise KeyError(k)


def count_of(I, d, f, area):
    return new_count(I, d, f, area, filename='d/set.diam')


def h_requests(I):
    """a request gives the same answer whatever was asked before, and changes none of its inputs"""
    c = I.case
    d = c['d']
    f = [I.real(f'f{i}', .05, 1.) for i in range(len(d))]
    area = I.real('area', .1, 1e6)
    rng = list(c['range'])
    pf = functions(I)
    if 'adj' in (c['a'][0], c['b'][0]) or any(o[0] == 'plot' and 's' in o[3] for o in (c['a'], c['b'])):
        pf.fit = lambda p, *a, **k: [-3., -3.1, -2.9]
    cc = count_of(I, d, f, area)
    base = shared(I)
    fn = state(pf)
    want = flat(op(I, count_of(I, d, f, area), c['a'], pf, list(rng), I.tmp))
    src = flat([cc.diam, cc.fraction, cc.area, cc.filename, cc.name, cc.perimeter, cc.buffered, cc.prebinned])
    got1 = op(I, cc, c['a'], pf, rng, I.tmp)
    first = flat(got1)
    op(I, cc, c['b'], pf, rng, I.tmp)
    kept(I, first, flat(got1), 'an answer stays what it was')
    again = flat(op(I, cc, c['a'], pf, rng, I.tmp))
    kept(I, want, first, 'answer of a fresh count')
    kept(I, want, again, 'answer after another request')
    kept(I, src, flat([cc.diam, cc.fraction, cc.area, cc.filename, cc.name, cc.perimeter, cc.buffered, cc.prebinned]), 'crater data unchanged')
    I.check(rng == list(c['range']), 'range unchanged')
    kept(I, fn, state(pf), 'production function unchanged')
    kept(I, base, shared(I), 'shared tables unchanged')
    I.reach('asked')


OPS = [('plot', p, b, fl) for p, b, fl in (('cumulative', 'root-2', 'r'), ('differential', '10/decade', 'rp'), ('R-plot', 'none', ''), ('Hartmann', 'pseudo-log', 'ra'), ('cumulative', 'x2', 'rs'), ('cumulative', 'none', 'r'), ('incremental', 'root-2', ''))] + \
      [('fit', 'differential', 'root-2'), ('bins', 'none'), ('bins', 'x2', 'r'), ('range', '10/decade', ['b2', 'b-1']), ('range', 'root-2', ['0', '3']), ('curve', 'R-plot'), ('adj', 'x2')]


def cases_requests(tier):
    D = [.9, 1.1, 2.3, 2.3, 4.]
    ops = OPS
    n = len(ops)
    for i, a in enumerate(ops):
        js = [(i + 1) % n, (i + 3) % n, (i + 6) % n] if tier == 'quick' else range(n)
        for j in js:
            if j != i and not (a[0] == 'plot' and a[1] == 'R-plot' and False):
                yield dict(d=D, range=[1., 3.5] if (i + j) % 2 else [0., math.inf] if a[0] != 'curve' and ops[j][0] != 'curve' and (len(a) < 3 or 'bins' != a[0]) and ops[j][0] != 'bins' else [.5, 5.], a=a, b=ops[j])


# ---------------------------------------------------------------- drawing
class Rec:
    """stands for matplotlib objects: notes every call"""

    def __init__(self, I, log, name=''):
        self.__dict__.update(_I=I, _log=log, _n=name)

    def __getattr__(self, k):
        if k.startswith('__') or k == 'tolist':
            raise AttributeError(k)
        return Rec(self._I, self._log, f'{self._n}.{k}')

    def __setattr__(self, k, v):
        self._log.append((f'{self._n}.{k}=', (v,), {}))

    def __getitem__(self, k):
        return Rec(self._I, self._log, f'{self._n}[]')

    def __setitem__(self, k, v):
        self._log.append((f'{self._n}[]=', (k, v), {}))

    def __add__(self, o):
        return self

    def __call__(self, *a, **k):
        last = self._n.rsplit('.', 1)[-1]
        if last == 'transform':
            return self._I.np.array([e for e in a[0]])
        self._log.append((self._n, a, k))
        if last == 'get_legend_handles_labels':
            return [], []
        if last in ('get_texts', 'get_xticklabels'):
            return []
        if last == 'get_extents':
            return Any(height=1., width=2.)
        return Rec(self._I, self._log, self._n + '()')


def calls(log):
    out = []
    for n, a, k in log:
        out.append((n, None))
        for p, v in flat([list(a), k], n):
            if isinstance(v, Rec):
                v = '<' + v._n + '>'
            elif callable(v):
                v = '<function>'
            elif v is None or isinstance(v, (int, float, str, list)) or type(v).__name__ in ('Sym', 'SymStr', 'SymTok', 'SymInt', 'SymBool', 'SymReal') or hasattr(v, 'z'):
                pass
            else:
                v = '<' + type(v).__name__ + '>'
            out.append((p, v))
    return out


class Pdf:
    def __init__(self, pf, cf, cc, r, *a, **k):
        self.k, self.cc, self.r, self.kw = 3, cc, r, k

    def median1sigma(self, *a, **k):
        return [1., .9, 1.2]

    def offset(self, left):
        return .1

    def plot(self, ax, **k):
        ax.pdf(list(self.r), **k)

    violin_plot = lambda self, ax, *a, **k: ax.violin(list(self.r), *a, **k)


def build(I, c, v):
    """a plot set with its overplots over one or two crater counts"""
    np = I.np
    pf = functions(I)
    pf.fit = lambda p, *a, **k: [-3., -3.1, -2.9]
    cf = I.cst.Chronologyfn({'chronology': [{'name': 'y', 'coefficients': [5.44e-14, 6.93, 0., 8.38e-4]}]}, 'y')
    cf.t = lambda a0=None, n1=None: .8 * a0 + 4.5 if a0 is not None else .8 * np.log10(n1) + 4.5
    cf.a0 = lambda t: np.array([(e - 4.5) / .8 for e in t]) if hasattr(t, '__len__') else (t - 4.5) / .8
    counts = [count_of(I, v['d'], v['f'], v['area']) for _ in range(1 if c.get('one') else len(c['plots']))]
    for x in counts:
        x.n_sigma, x.n_trials = None, None
    cps = []
    for i, q in enumerate(c['plots']):
        cps.append(I.cst.Craterplot(cratercount=counts[0 if c.get('one') else i], source='d/set.diam', type=q[0], binning=q[1], range=list(q[2]), psym=i, colour='k', error_bars=q[3] if len(q) > 3 else 0, isochron=q[4] if len(q) > 4 else 0, offset_age=[0, 1]))
    s = I.cst.Craterplotset(craterplot=cps, cf=cf, pf=pf, presentation=c['pres'], legend='narN', print_dimensions=c.get('dims', '7.5x7.5'), style=c.get('style', 'natural'), pt_size=c.get('pt', 9), invert=c.get('invert', 0), title='a|b',
                            bins=c.get('bins', False), isochrons=c.get('iso'))
    return s, cps


def draw(I, s):
    log = []
    m, cpm = I.mod('craterstats.Craterplotset'), I.mod('craterstats.Craterplot')
    r = lambda n: Rec(I, log, n)
    with Patch(m, plt=r('plt'), ticker=r('ticker'), mfig=r('mfig'), patheffects=r('pe'), patches=r('patches'), fm=r('fm'), Polygon=r('Polygon')), Patch(cpm, TextPath=r('TextPath'), ticker=r('ticker')), \
            Patch(I.cst, Craterpdf=Pdf, str_age=lambda t, *a, **k: 'age'), Patch(I.gm, scientific_notation=lambda *a, **k: 'sci', diameter_range=lambda r, *a, **k: 'rng'):
        s.draw()
    return calls(log)


def values(I, c):
    d = c.get('d', [.9, 1.1, 2.3, 2.3, 4.])
    return dict(d=d, f=[I.real(f'f{i}', .05 if not c.get('auto') else .9, 1.) for i in range(len(d))], area=I.real('area', .1, 1e6 if not c.get('auto') else .15))


def h_draw(I):
    """drawing the same set again, or after another one, draws the same"""
    c = I.case
    v = values(I, c)
    base = shared(I)
    s, _ = build(I, c, v)
    auto = c['pres'] != 'sequence' and c.get('auto')
    if auto:
        s.autoscale()
    else:
        s.xrange, s.yrange = I.np.array([-1., 2.]), I.np.array([-6., 1.])
    if c['pres'] == 'sequence':
        s.xrange, s.yrange = [4., .1], [0., 0.]
    st = state(s)
    first = draw(I, s)
    if c.get('other'):
        c2 = dict(c, **c['other'])
        s2, _ = build(I, c2, values(I, dict(c2, d=[.5, 7.])) if False else v)
        s2.xrange, s2.yrange = I.np.array([-2., 1.]), I.np.array([-4., 3.])
        if c2['pres'] == 'sequence':
            s2.xrange, s2.yrange = [3., .01], [0., 0.]
        draw(I, s2)
    if auto:
        s.autoscale()
    again = draw(I, s)
    kept(I, first, again, 'the same drawing again')
    s3, _ = build(I, c, v)
    s3.xrange, s3.yrange = s.xrange, s.yrange
    if auto:
        s3.autoscale()
    kept(I, first, draw(I, s3), 'the same drawing from a new set')
    kept(I, [e for e in st if e[0].startswith(('.xrange', '.yrange', '.title', '.pt_size', '.legend', '.palette', '.grey'))], [e for e in state(s) if e[0].startswith(('.xrange', '.yrange', '.title', '.pt_size', '.legend', '.palette', '.grey'))], 'settings unchanged')
    kept(I, base, shared(I), 'shared tables unchanged')
    I.reach('drawn')


def cases_draw(tier):
    B = [('data', 'root-2', ['0', 'inf'], 1), ('c-fit', '10/decade', ['1', '4'], 0, 1), ('poisson', 'x2', ['.8', '3'])]
    A = [('data', 'none', ['0', 'inf']), ('data', 'x2', ['b1', 'b-1'])]
    yield dict(pres='differential', plots=B[:2], other=dict(pres='Hartmann', invert=1, pt=5))
    yield dict(pres='cumulative', plots=A, one=1, other=dict(pres='R-plot', dims='3', style='root-2'))
    yield dict(pres='cumulative', plots=B, one=1, auto=1)
    yield dict(pres='Hartmann', plots=B[:1] + A[1:], one=1, other=dict(pres='sequence', invert=1))
    yield dict(pres='sequence', plots=B[2:] + B[1:2], one=1, other=dict(pres='cumulative'))
    yield dict(pres='R-plot', plots=A[1:], auto=1, bins=True)
    yield dict(pres='chronology', plots=[], iso='1,2', other=dict(pres='rate', invert=1))
    if tier != 'quick':
        for p in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
            for o in ('cumulative', 'differential', 'R-plot', 'Hartmann', 'sequence'):
                for one in (0, 1):
                    for auto in (0, 1):
                        yield dict(pres=p, plots=B[:2] if not one else B, one=one, auto=auto, other=dict(pres=o, invert=1, style='root-2'))


# ---------------------------------------------------------------- runs of the command line
class Fn(Any):
    pass


def system(i):
    return dict(name=['Moon, Neukum (1983)', 'Mars, Hartmann (2001)'][i], cf=f'c{i}', pf=f'p{i}', body=['Moon', 'Mars'][i])


def one_run(I, q, log):
    """the part of main() from the arguments to the output (objects noted)"""
    cli = I.mod('craterstats.cli')
    np = I.np
    F = dict(chronology_system=[system(0), system(1)], equilibrium=[dict(name='Standard'), dict(name='Other')], epochs=[dict(name='Lunar'), dict(name='Martian')])

    class Cps(Fn):
        def __init__(self, d):
            log.append(('set', dict(d)))
            Fn.__init__(self, **d)
            self.__dict__['palette'] = [f'p{i}' for i in range(40)]

        def autoscale(self, *a):
            log.append(('scale', list(a)))

    def plot(d):
        log.append(('plot', dict(d)))
        return Fn(**d)

    hf = bool(q.get('limits'))
    with Patch(cli, write_output_files=lambda a, c: log.append(('write', sorted(c.format), c.out))), \
            Patch(I.cst, Chronologyfn=lambda f, n, **k: 'cf ' + n, Productionfn=lambda f, n, **k: Fn(n=n, xrange=np.array([-2., 1.]), yrange=np.array([-6., 2.])) if hf else 'pf ' + str(n), Epochs=lambda f, n, *a: 'ep ' + n,
                  Functionslist=lambda *a, **k: Any(functions=F), Craterplotset=Cps, Craterplot=plot, Cratercount=type('CC', (), {'BINNINGS': I.cst.Cratercount.BINNINGS, '__new__': lambda cls, s: 'count ' + s})), \
            Patch(I.gm, write_textfile=lambda *a, **k: log.append(('text', [str(a[0])]))):
        args = list(q['argv'])
        if q.get('title') is not None:
            args += ['-title', q['title']]
        cli.main(args)


def run(I, q):
    log = []
    one_run(I, q, log)
    out = []
    for e in log:
        for p, v in flat([list(e)[1:]], e[0]):
            out.append((p, v if not callable(v) and not isinstance(v, Any) else '<object>'))
    return out


def h_runs(I):
    """a run of the program is the same whether or not another one came before it"""
    c = I.case
    base = shared(I)
    q = [dict(argv=a, limits=c.get('limits')) for a in c['runs']]
    for i, x in enumerate(q):
        if c.get('text'):
            x['title'] = I.text(f'title{i}', 2, 'ab|')
    # every choice below is the free setting of the other run
    k = I.choice('other', list(range(len(q) - 1))) + 1
    alone = run(I, q[0])
    run(I, q[k])
    kept(I, base, shared(I), 'shared defaults unchanged')
    kept(I, alone, run(I, q[0]), 'same run after another')
    run(I, q[k])
    kept(I, run(I, q[0]), alone, 'same run after two others')
    I.reach('ran')


R = [
    ['-cs', 'Moon', '-p', 'src=a/x.diam'],
    ['-cs', 'Mars', '-ef', 'Oth', '-ep', 'Mart', '-pr', 'Hartmann', '-o', 'res.pdf', '-f', 'svg', 'png', '-invert', '1', '-pt_size', '5', '-p', 'src=b.scc,psym=fi,colour=2', '-p', 'type=d-fit,range=[1,2],isochron=1'],
    ['-pr', 'seq', '-o', 'q.tif', '-legend', 'nar', '-p', 'src=c.scc,offset_age=[2,3],hide=1', '-p', 'type=c-fit'],
    ['-pr', 'chron', '-xrange', '4', '0', '-yrange', '-6', '2', '-o', 'w.svg', '-n', '2' ],
    ['-pr', 'uncertainty', '-min_diameter', '2', '-o', 'u.csv', '-isochrons', '1,2'],
    ['-pr', 'rate', '-ref_diameter', '10', '-title', 'T', '-transparent', '-st'],
    ['-pr', 'cumu', '-xrange', '-2', '1', '-o', 'z.csv', '-p', 'src=d.stat,binning=x2,resurf=1,colour=#123456', '-p', 'range=[2,3],snap=0,error_bars=0'],
]


def cases_runs(tier):
    ok = [R[0], R[1], R[2], R[4][:2] + R[4][4:], R[5], R[6]]
    for i, a in enumerate(ok):
        others = ok[:i] + ok[i + 1:]
        yield dict(runs=[a] + others)
        yield dict(runs=[a] + others, limits=1)
        if '-title' not in a:
            yield dict(runs=[a] + [o for o in others if '-title' not in o], text=1)


HARNESSES = [
    Harness('requests', h_requests, cases_requests, bounds='one count of 5 craters (any fractions and area): any two requests out of 14 (plot data in all presentations and binnings, with range, show-all, resurfacing correction, fits, bins, limits, curves) and the first one again; fresh count for comparison'),
    Harness('draw', h_draw, cases_draw, bounds='plot sets of up to 3 overplots (data, fits, poisson) over one shared or separate counts of 5 craters with any fractions and area, drawn, another set drawn, drawn again, drawn from a new set: all calls to matplotlib recorded and compared'),
    Harness('runs', h_runs, cases_runs, bounds='6 command lines (all presentations, output names with formats, carried-over plot settings, free titles of 2 characters), each alone, after any other, and after two others: settings of the plot set and the plots, formats, output name; shared tables'),
]

"""P40: options for the whole plot take effect, and only theirs."""
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.P26 import ra_class
from harness.util import abs_le, new_count

PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty']
BODIES = ['Moon', 'Mars', 'Mercury', 'Vesta']
NAME = dict(Moon='Moon, Neukum (1983)', Mars='Mars system', Mercury='Mercury system', Vesta='Vesta system')
KM2 = {'Moon': 3.793e7, 'Mars': 1.4437e8, 'Mercury': 7.48e7}
# option: setting(s) of the plot that it governs
KEYS = dict(title='title', isochrons='isochrons', legend='legend', print_dimensions='print_dimensions', pt_size='pt_size', ref_diameter='ref_diameter', sig_figs='sig_figs', mu='mu', invert='invert', text_halo='text_halo',
            transparent='transparent', style='style', xrange='xrange', yrange='yrange', min_diameter='min_diameter', n_samples='n_samples', ra_offset='ra_offset', ra_show='ra_show', bins='bins')
WATCH = sorted(set(KEYS.values()) | {'presentation', 'font', 'trials', 'measure', 'global_area', 'chronology_system', 'equilibrium', 'epochs'})


class Fn:
    """stands for a function of the chosen system"""

    def __init__(self, kind, name, np, hart):
        self.kind, self.name = kind, name
        if kind == 'pf' and hart:
            self.xrange, self.yrange = np.array([-2., 1.]), np.array([-6., 2.])


def systems():
    return dict(chronology_system=[dict(name=NAME[b], cf=f'cf{b}', pf=f'pf{b}', body=b) for b in BODIES], equilibrium=[dict(name='Standard'), dict(name='Other')], epochs=[dict(name='Lunar'), dict(name='Martian')])


def run(I, argv, hart=False):
    """settings of the plot when it is first drawn, and what is written"""
    cli = I.mod('craterstats.cli')
    np = I.np
    C = I.cst.Craterplotset
    out = dict(made=[], saved=[], set=None)
    fig = Any()
    fig.savefig = lambda f, **k: out['saved'].append((f, k))

    def see(s):
        if out['set'] is None:
            out['set'] = {k: getattr(s, k, None) for k in WATCH}
            out['set'].update(palette=list(s.palette), grey=list(s.grey), cf=s.cf, pf=s.pf, ef=s.ef, ep=s.ep, plots=list(s.craterplot))
        s.fig = fig

    def make(kind):
        def f(fs, name, *a, **k):
            r = Fn('ef' if k.get('equilibrium') else kind, name, np, hart)
            r.args = a
            out['made'].append(r)
            return r
        return f

    real = I.cst.Cratercount

    class Count:
        BINNINGS = real.BINNINGS

        def __new__(cls, *a):
            if not a:
                return real()
            cc = new_count(I, [.9, 1.1, 2.3, 2.3, 4.], [1.] * 5, 10.)
            cc.n_sigma = cc.n_trials = None
            return cc
    numeric = {}
    if I.sym:
        from symx import shadow
        numeric = dict(float=shadow.c_float)
    cli.__dict__.update(numeric)
    try:
        with Patch(I.cst, Chronologyfn=make('cf'), Productionfn=make('pf'), Epochs=make('ep'), Functionslist=lambda *a, **k: Any(functions=systems()), Cratercount=Count), Patch(I.gm, write_textfile=lambda *a, **k: None), \
                Patch(C, draw=see, create_summary_table=lambda s, **k: see(s), create_sequence_table=lambda s, *a, **k: see(s), calculate_time_axis_params=see, compute_age_area=lambda s: {}, age_area_plot=lambda s, *a, **k: None):
            cli.main(argv)
    finally:
        for k in numeric:
            cli.__dict__.pop(k, None)
    return out


def eq(I, a, b):
    if isinstance(a, (list, tuple)) or getattr(a, 'ndim', 0):
        a, b = list(a), list(b)
        return len(a) == len(b) and I.all([eq(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, (set, dict)):
        return a == b
    if isinstance(b, float) and isinstance(a, float):
        return abs(a - b) <= 1e-9 * abs(b)
    return abs_le(I, a - b, 1e-9)


def option(I, c):
    """(arguments, settings they stand for) of the options of a case"""
    argv, want = [], {}
    tok = lambda n, lo, hi: (lambda v: (I.token(v), v))(I.real(n, lo, hi))
    for o in c['opts']:
        k, *v = o
        if k in ('xrange', 'yrange'):
            a, b = tok(k + '0', .001, 3.), tok(k + '1', 3.5, 9.)
            argv += ['-' + k, a[0], b[0]]
            want[k] = [a[1], b[1]]
        elif k in ('pt_size', 'ref_diameter'):
            a = tok(k, .01, 100.)
            argv += ['-' + k, a[0]]
            want[k] = a[1]
        elif k == 'min_diameter':
            a = tok(k, .01, 100.)
            argv += [v[0] if v else '-d_min', a[0]]
            want[k] = a[1]
        elif k == 'title':
            t = I.text('title', 2, 'ab|')
            argv += ['-title', t, 'c']
            want[k] = t + ' c'
        elif k == 'isochrons':
            t = I.text('iso', 3, '1,')
            argv += ['-isochrons', t]
            want[k] = t
        elif k == 'legend':
            t = I.text('leg', 2, 'narcpN') if not v else v[0]
            argv += ['-legend', t]
            want[k] = t
        elif k in ('mu', 'invert', 'text_halo', 'transparent', 'ra_show', 'tight'):
            argv += ['-' + k] + ([str(v[0])] if v else [])
            want[k] = v[0] if v else 1
        elif k == 'bins':
            argv += ['-b']
            want[k] = True
        else:
            argv += [c.get('spell', {}).get(k, '-' + k), str(v[0])]
            want[k] = v[0]
    return argv, want


def h_options(I):
    """each option sets its setting; everything else is as without it"""
    c = I.case
    head = ['-pr', c['pr']] + c.get('head', [])
    tail = []
    for q in c.get('plots', []):
        tail += ['-p', q]
    hart = bool(c.get('hart'))
    base = run(I, head + tail, hart)
    argv, want = option(I, c)
    got = run(I, (head + argv if not c.get('first') else argv + head) + tail, hart)
    a, b = base['set'], got['set']
    I.check(a is not None and b is not None, 'plot drawn')
    if c['pr'] == 'Hartmann' and hart:
        want.pop('xrange', None)
        want.pop('yrange', None)
        if not tail:
            want.update(xrange=[-2., 1.], yrange=[-6., 2.])
    for k in WATCH:
        if k in want:
            v = want[k]
            if k == 'legend' and any('b-p' in q for q in c.get('plots', [])):
                I.check(I.imp(I.any([e == 'a' for e in v]), I.any([e == 'p' for e in b[k]])), 'perimeter shown with the area for buffered counts')
                I.check(b[k][:len(v)] == v, 'option takes effect: legend')
                continue
            I.check(eq(I, b[k], v) if k not in ('mu', 'invert', 'text_halo', 'transparent', 'ra_show', 'bins') else bool(b[k]) == bool(v), 'option takes effect: ' + k)
        elif k in ('xrange', 'yrange') and tail and ('xrange' in want or 'yrange' in want):
            pass
        else:
            I.check(eq(I, b[k], a[k]), 'other settings as without the option')
    I.check(b['palette'] == [p[1 if want.get('invert', a['invert']) else 0] for p in I.cst.PALETTE], 'palette of the background')
    I.check(b['grey'] == list(I.cst.GREYS[1 if want.get('invert', a['invert']) else 0]), 'greys of the background')
    for q, t in zip(b['plots'], tail[1::2]):
        if 'colour=Red' in t:
            I.check(q.colour == ('#ff0000' if want.get('invert', a['invert']) else '#a00000'), 'colours for the background')
    if 'xrange' not in want and c['pr'] in ('sequence', 'uncertainty'):
        I.check([float(e) for e in b['xrange']] == ([4.2, .01] if c['pr'] == 'sequence' else [4.2, 1e-5]), 'time axis as documented')
    pics = [k for f, k in got['saved']]
    I.check(len(pics) >= 1, 'picture saved')
    for k in pics:
        I.check(bool(k.get('transparent')) == bool(want.get('transparent', 0)), 'transparent background where asked for')
        I.check((k.get('bbox_inches') == 'tight') == bool(want.get('tight', 0)), 'tight frame where asked for')
    I.reach('options')


def h_defaults(I):
    """settings without options: those documented, for the presentation and the chosen system"""
    c = I.case
    b = I.choice('system', BODIES)
    ef, ep = I.choice('ef', ['', 'Other']), I.choice('ep', ['', 'Mart'])
    argv = (['-cs', b] if b != 'Moon' or c.get('explicit') else [])
    if ef:
        argv += ['-ef', ef]
    if ep:
        argv += ['-ep', ep]
    if c['pr'] != 'differential' or c.get('explicit'):
        argv += ['-pr', c['pr'] if c['pr'] == 'uncertainty' else c['pr'][:4]]
    got = run(I, argv, c.get('hart'))
    s = got['set']
    I.check(s['presentation'] == c['pr'], 'presentation')
    I.check(s['chronology_system'] == NAME[b] and s['cf'].kind == 'cf' and s['cf'].name == 'cf' + b and s['pf'].kind == 'pf' and s['pf'].name == 'pf' + b, 'functions of the chosen system')
    I.check((s['ef'] is None) == (not ef) and (not ef or s['ef'].kind == 'ef' and s['ef'].name == 'Other'), 'equilibrium function where chosen')
    I.check((s['ep'] is None) == (not ep) and (not ep or s['ep'].kind == 'ep' and s['ep'].name == 'Martian' and list(s['ep'].args) == [s['pf'], s['cf']]), 'epochs where chosen, with the functions of the system')
    if b in KM2:
        I.check(abs(s['global_area'] / KM2[b] - 1) < .01, 'surface area of the body')
    else:
        I.check(s['global_area'] >= 5.2e8, 'no limit for an unknown body')
    doc = dict(mu=1, invert=0, transparent=0, ra_show=1, sig_figs=3, style='natural', ref_diameter=1., pt_size=9., print_dimensions='7.5x7.5', legend='A' if c['pr'] == 'sequence' else 'fnacr',
               text_halo=0 if c['pr'] in ('uncertainty', 'sequence', 'chronology', 'rate') else 1, min_diameter=.15, n_samples=200, bins=0, ra_offset=0, trials=1000)
    for k, v in doc.items():
        I.check(float(s[k]) == float(v) if not isinstance(v, str) else s[k] == v, 'documented default: ' + k)
    I.check(set(s['measure']) == {'m2cnd', 'sdaa'}, 'both measures')
    x, y = [float(e) for e in s['xrange']], [float(e) for e in s['yrange']]
    if c['pr'] == 'Hartmann':
        w = ([-2., 1.], [-6., 2.]) if c.get('hart') else ([-3.15, 2.56], [-8., 5.])
        I.check(x == w[0] and y == w[1], 'axes of the Hartmann presentation')
    elif c['pr'] in ('chronology', 'rate'):
        I.check(x == [4.5, 0.] and y == [-6., 2. if c['pr'] == 'chronology' else 3.], 'axes of the function')
    elif c['pr'] == 'sequence':
        I.check(x == [4.2, .01], 'axes of the sequence')
    elif c['pr'] == 'uncertainty':
        I.check(x == [4.2, 1e-5] and y == [-2., 8.], 'axes of the uncertainty charts')
    I.check(len(got['saved']) == (3 if c['pr'] == 'uncertainty' else 1), 'pictures')
    I.reach('defaults')


def h_randomness(I):
    """number of trials, measures and selected bins of a randomness analysis"""
    c = I.case
    C = I.cst.Craterplotset
    cli = I.mod('craterstats.cli')
    log = []
    sel = I.text('select', 3, '12,') if c['select'] == 'text' else c['select']
    argv = ['-ra', 'd/x.scc', '-f', 'png']
    argv += ['-trials', str(c['trials'])] if c.get('trials') else []
    argv += ['-measure', c['measure']] if c.get('measure') else []
    argv += ['-select=' + sel] if c['select'] == '-1,2' else ['-select', sel] if sel is not None else []
    with Patch(I.cst, Chronologyfn=lambda *a, **k: Any(), Productionfn=lambda *a, **k: Any(), Functionslist=lambda *a, **k: Any(functions=systems()), Randomnessanalysis=ra_class(I, log)), Patch(I.gm, write_textfile=lambda *a, **k: None), \
            Patch(C, draw=lambda s: setattr(s, 'fig', Any(savefig=lambda *a, **k: None)), create_summary_table=lambda *a, **k: None):
        s = I.cst.Craterplotset
        old = s.__init__

        def init(self, *a, **k):
            old(self, *a, **k)
            self.fig = Any(savefig=lambda f, **k: log.append(('saved', f)))
        with Patch(s, __init__=init):
            cli.main(argv)
    want = (c.get('measure') or 'm2cnd,sdaa').split(',')
    runs = [e for e in log if e[0] == 'run']
    I.check(sorted(e[2] for e in runs) == sorted(want), 'the measures asked for')
    I.check(all(e[1] == c.get('trials', 1000) for e in runs), 'the number of trials asked for')
    kind = 'sigma' if sel is not None and bool(sel == '0') else 'split'
    pics = [e for e in log if e[0] in ('sigma', 'split')]
    I.check(sorted(e[1] for e in pics) == sorted(want) and all(e[0] == kind for e in pics), 'a picture per measure')
    wrote = [i for i, e in enumerate(log) if e[0] == 'write']
    I.check(wrote and set(log[wrote[-1]][2]) == set(want) and all('stats' in v for v in log[wrote[-1]][2].values()), 'statistics of all measures stored')
    for i, e in enumerate(log):
        if e[0] == 'run':
            nx = [j for j in range(i + 1, len(log)) if log[j][0] in ('write', 'run')]
            I.check(log[nx[0]][0] == 'write', 'results stored after each measure')
    if kind == 'split':
        v = []
        if sel is not None:
            part = ''
            for ch in list(sel) + [',']:
                if bool(ch == ','):
                    if len(part):
                        v.append(int(''.join('1' if bool(x == '1') else '2' if bool(x == '2') else str(x) for x in part)))
                    part = []
                else:
                    part = list(part) + [ch]
        for e in pics:
            I.check(([int(x) for x in e[2]] if e[2] is not None else []) == sorted(v), 'bins asked for, in order')
    I.reach('randomness')


def c_randomness(t):
    return [dict(select='text'), dict(select=None, trials=50), dict(select='0', measure='sdaa', trials=7), dict(select='3, 1,12', measure='m2cnd'), dict(select='-1,2', measure='sdaa,m2cnd', trials=200), dict(select='text', measure='m2cnd', trials=1)]


def c_options(t):
    c = []
    P = ['src=a/x.diam', 'type=c-fit,range=[1,3],colour=Red']
    for i, pr in enumerate(PRES):
        pl = P if pr in PRES[:3] or pr == 'sequence' else []
        c.append(dict(pr=pr, opts=[('xrange',), ('yrange',)] if pr != 'uncertainty' or 1 else [], plots=pl, hart=pr == 'Hartmann'))
        c.append(dict(pr=pr, opts=[('invert',), ('mu', 0), ('text_halo', 0), ('tight',)], plots=pl))
        c.append(dict(pr=pr, opts=[('transparent',), ('text_halo',), ('ra_show', 0), ('mu',)], plots=pl, first=1))
        c.append(dict(pr=pr, opts=[('title',), ('pt_size',), ('ref_diameter',)], plots=pl))
        c.append(dict(pr=pr, opts=[('isochrons',), ('legend',), ('sig_figs', 2)] if i % 2 else [('min_diameter', ['-d_min', '--min_diameter'][i % 4 // 2]), ('n_samples', 37), ('style', 'root-2'), ('print_dimensions', '3x4')], plots=pl,
                      spell=dict(sig_figs='-sf', print_dimensions='-pd', n_samples='-ns')))
    c.append(dict(pr='cumulative', opts=[('xrange',)], plots=P))
    c.append(dict(pr='differential', opts=[('yrange',), ('tight', 0), ('transparent', 0)], plots=P))
    c.append(dict(pr='cumulative', opts=[('invert', 0), ('mu', 1), ('text_halo', 1), ('tight', 1)], plots=P))
    c.append(dict(pr='differential', opts=[('bins',), ('print_dimensions', '2'), ('invert', 1), ('ra_offset', 7), ('transparent', 1)], spell=dict(print_dimensions='-pd'), plots=P))
    c.append(dict(pr='R-plot', opts=[('legend',)], plots=P + ['type=b-poisson']))
    c.append(dict(pr='cumulative', opts=[('legend', 'na')], plots=['src=a/x.scc,type=b-poisson', 'type=data']))
    c.append(dict(pr='sequence', opts=[('legend',)], plots=P))
    return c


def c_defaults(t):
    return [dict(pr=p, hart=h, explicit=e) for p in PRES for h, e in ((0, 0), (1, 1)) if h == 0 or p in ('Hartmann', 'differential')]


HARNESSES = [
    Harness('options', h_options, c_options, bounds='all presentations with 19 options in groups of 1..4 (any limits, sizes and diameters; titles, isochron lists and legends of 2..3 free characters; bare, on and off flags), before or after the others, with and without overplots; the same command without them for comparison'),
    Harness('defaults', h_defaults, c_defaults, bounds='all presentations, four bodies, with and without equilibrium function and epochs: documented defaults and the functions of the system'),
    Harness('randomness', h_randomness, c_randomness, bounds='numbers of trials, lists of measures, selections (3 free characters)'),
]
ASSUMPTIONS = ['the functions of a system, the crater counts, the randomness analysis and the drawing are stand-ins; the argument parser is the real one']

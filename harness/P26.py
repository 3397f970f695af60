"""P26: names and formats of the output files."""
import os
from symx.check import Harness
from harness.P24 import Any, Patch

PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty', 'map', 'sdaa', 'm2cnd']
FORMATS = ['png', 'tif', 'pdf', 'svg', 'csv']


class Cps:
    def __init__(self, d, log):
        self.__dict__.update(d)
        self.log, self.fig, self.tight = log, self, 0
        self.craterplot = []

    def savefig(self, name, **k):
        self.log.append(name)

    def draw(self, *a, **k):
        pass

    calculate_time_axis_params = age_area_plot = autoscale = draw

    def compute_age_area(self, *a, **k):
        return {'zz': 1}

    def create_summary_table(self, f_out=None):
        self.log.append(f_out)

    def create_sequence_table(self, f):
        self.log.append(f)


def functions():
    f = dict(chronology_system=[dict(name='Moon, Neukum (1983)', cf='a', pf='b', body='Moon'), dict(name='Mars [x], A-B et al. (2001)', cf='a', pf='b', body='Mars')],
             equilibrium=[], epochs=[])
    return f


def contains(I, got, want):
    return I.count([g == want for g in got])


def recognised(I, name):
    """(name without the extension, extension or None); the extension is that of an output format"""
    for f in FORMATS:
        if len(name) > 4 and name[-4:] == '.' + f:
            return name[:-4], f
    return name, None


def no_tag(s):
    """the name without CRATER and the underscores next to it"""
    for t in ('_CRATER_', '_CRATER', 'CRATER_', 'CRATER'):
        k = s.find(t)
        if k >= 0:
            return s[:k] + s[k + len(t):]
    return s


def h_names(I):
    c = I.case
    cli = I.mod('craterstats.cli')
    argv = ['-pr', c['pr']]
    if c['formats'] is not None:
        argv += ['-f'] + c['formats']
    if c.get('cs'):
        argv += ['-cs', c['cs']]
    if c.get('st'):
        argv += ['-st']
    args = cli.get_parser().parse_args(argv)
    d = os.path.join(I.tmp, 'results.d')
    os.makedirs(d, exist_ok=True)
    kind = c['out']
    alpha = 'ab.-_ 1'
    if kind == 'name':
        out = c.get('pre', '') + I.text('out', c['n'], alpha) + c.get('post', '')
        I.assume(I.all([I.nt(out[0] == '.'), I.nt(out[0] == ' ')]))
        args.out = out
    elif kind == 'ext':
        out = 'q.' + I.text('ext', 3, 'pngcsvdf' if I.tier != 'quick' else 'pngdf')
        args.out = out
    elif kind == 'dir':
        args.out = d + c.get('slash', '')
    if c.get('input'):
        args.input = True
        t = I.text('in', 2, 'ab.')
        I.assume(I.nt(t[0] == '.'))
        args.input_filename = os.path.join(I.tmp, 'set') + os.sep + t + '.cs'
    srcs = []
    for k, (pre, n, post) in enumerate(c['sources']):
        t = I.text(f's{k}', n, 'ab_.'[:c.get('sa', 3)])
        I.assume(I.nt(t[0] == '.'))
        srcs.append(pre + t + post)
    dicts = [dict(source=s) for s in srcs]
    dflt = I.cst.DEFAULTS['set']
    import copy
    log = []
    with Patch(I.cst, Chronologyfn=lambda *a, **k: Any(), Productionfn=lambda *a, **k: Any(xrange=I.np.array([0, 1]), yrange=I.np.array([0, 1])), Epochs=lambda *a, **k: Any()):
        cps_dict = cli.construct_cps_dict(args, copy.deepcopy(dflt), functions())
        cli.set_default_filename(args, cps_dict, dicts)
        cps = Cps(cps_dict, log)
        cli.write_output_files(args, cps)
    # ------------------------------------------------------------- expected
    pr = c['pr']
    system = 'MarsxABetal2001' if c.get('cs') else 'MoonNeukum1983'
    if c.get('input'):
        base = args.input_filename[:-3]
    else:
        if pr in ('chronology', 'rate'):
            base = system
        elif pr == 'uncertainty':
            base = system + '_0.15'
        elif srcs:
            names = []
            for s in srcs:
                n = s[s.rfind('/') + 1:s.rfind('.')]
                n = no_tag(n)
                if not any(bool(n == m) for m in names):
                    k = 0
                    while k < len(names) and names[k] < n:
                        k += 1
                    names.insert(k, n)
            base = names[0]
            for n in names[1:]:
                base = base + '_' + n
        else:
            base = 'out'
        if pr in ('chronology', 'rate', 'uncertainty', 'map', 'm2cnd', 'sdaa'):
            base = base + '_' + pr
    fm = set(c['formats']) if c['formats'] is not None else {'png', 'csv'}
    if kind in ('name', 'ext'):
        base, e = recognised(I, out)
        if e:
            fm.add(e)
    elif kind == 'dir':
        base = d + '/' + base[base.rfind('/') + 1:]
    tags = ['_k', '_err', '_age'] if pr == 'uncertainty' else ['']
    want = [base + t + '.' + f for f in sorted(fm) for t in (tags if f != 'csv' else ['']) if not (f == 'csv' and pr == 'uncertainty')]
    if c.get('st'):
        want.append(base + '_sequence.csv')
    I.check(len(log) == len(want), 'number of files')
    for w in want:
        I.check(contains(I, log, w) == 1, 'each requested file under its name')
    I.check(dflt['format'] == {'png', 'csv'} and dflt['out'] is None, 'defaults unchanged')
    I.reach('names')


def h_convert(I):
    """output names of file conversions"""
    c = I.case
    cli = I.mod('craterstats.cli')
    d = os.path.join(I.tmp, 'conv.d')
    os.makedirs(d, exist_ok=True)
    src = c['pre'] + I.text('s', 2, 'ab-') + c['tag'] + '.' + c['src']
    full = src.replace('%sample%/', I.cst.PATH + 'sample/')
    args = Any(convert=[c['fmt'], src], input=None)
    name = full[full.rfind('/') + 1:full.rfind('.')]
    if c['src'] == 'shp':
        name = no_tag(name)
    cps_out = 'out'
    if c['out'] == 'name':
        args.out = cps_out = 'w/' + I.text('o', 2, 'ab.')
        I.assume(I.nt(args.out[2] == '.'))
        want = args.out
    elif c['out'] == 'dir':
        args.out = d
        cps_out = d + '/out'
        want = d + '/' + name
    else:
        want = name
    want = want + ('_map' if c['fmt'] in ('png', 'svg', 'pdf') else '')
    log, read = [], []

    class Count:
        def __init__(self, f, *a):
            read.append(f)
            self.name = name

        def w(self, f, *a, **k):
            log.append(f)

        WriteStatFile = writeSCCfile = writeSHPfiles = w

        def plot(self, *a, **k):
            pass

    class PS(Any):
        def create_map_plotspace(self):
            pass

        def savefig(self, f, **k):
            log.append(f)

    cps = PS(out=cps_out)
    cps.fig = cps
    cs = []
    with Patch(I.cst, Cratercount=Count, Spatialcount=Count):
        with Patch(I.gm, write_textfile=lambda f, s, *a, **k: cs.append(f)):
            cli.convert_format(args, cps, '')
    I.check(len(log) == 1, 'one file written')
    I.eqtext(log[0], want + '.' + c['fmt'], 'name of the converted file')
    I.check(len(read) >= 1, 'source read')
    for r in read:
        I.eqtext(r, full, 'source read')
    if c['fmt'] in ('png', 'svg', 'pdf'):
        I.check(len(cs) == 1, 'command file saved')
        I.eqtext(cs[0], want + '.cs', 'command file next to it')
    I.reach('convert')


def ra_class(I, log):
    """stands for a randomness analysis"""

    class Ra:
        def __init__(self, filename, *a, **k):
            n = k.get('out') or (a[1] if len(a) > 1 else None)
            name = filename[filename.rfind('/') + 1:filename.rfind('.')] if not n else n
            self.filename, self.ra_file, self.montecarlo = filename, name + '_ra.txt', {}
            self.log = log
            log.append(('new', filename, self))

        def run_montecarlo(self, trials, measure):
            self.montecarlo[measure] = dict(n_trials=trials)
            log.append(('run', trials, measure))

        def calculate_stats(self):
            for m in self.montecarlo:
                self.montecarlo[m]['stats'] = 1
            log.append(('stats',))

        def write(self):
            log.append(('write', self.ra_file, {m: dict(v) for m, v in self.montecarlo.items()}))

        def plot_n_sigma(self, cps, measure, *a, **k):
            log.append(('sigma', measure, None))

        def plot_montecarlo_split(self, cps, measure, selection=None):
            log.append(('split', measure, selection))
    return Ra


def h_randomness(I):
    """names of the results and pictures of a randomness analysis"""
    c = I.case
    cli = I.mod('craterstats.cli')
    src = 'd.e/' + I.text('s', 2, 'ab.') + c['src']
    I.assume(I.nt(src[4] == '.'))
    argv = ['-pr', 'm2cnd'] if c.get('pr') else []
    if c['formats']:
        argv += ['-f'] + c['formats']
    if c.get('select') is not None:
        argv += ['-select', c['select']]
    args = cli.get_parser().parse_args(argv)
    args.randomness_analysis = src
    d = os.path.join(I.tmp, 'results.d')
    os.makedirs(d, exist_ok=True)
    if c['out'] == 'name':
        args.out = I.text('o', 2, 'ab.') + c.get('post', '')
        I.assume(I.nt(args.out[0] == '.'))
    elif c['out'] == 'input':
        args.input, args.input_filename = True, os.path.join(I.tmp, 'k.cs')
    dflt = I.cst.DEFAULTS['set']
    import copy
    log = []
    with Patch(I.cst, Chronologyfn=lambda *a, **k: Any(), Productionfn=lambda *a, **k: Any(xrange=I.np.array([0, 1]), yrange=I.np.array([0, 1])), Randomnessanalysis=ra_class(I, log)):
        cps_dict = cli.construct_cps_dict(args, copy.deepcopy(dflt), functions())
        cli.set_default_filename(args, cps_dict, [])
        cps = Cps(cps_dict, log)
        cli.write_output_files(args, cps)
    fm = set(c['formats'] or ['png', 'csv'])
    base = src[src.rfind('/') + 1:src.rfind('.')]
    if c['out'] == 'name':
        base, e = recognised(I, args.out)
        if not e and args.out.rfind('.') > 0:
            base = args.out
        if e:
            fm.add(e)
    elif c['out'] == 'input':
        base = args.input_filename[:-3]
    elif c.get('pr'):
        base = 'out_m2cnd'
    new = [e for e in log if e[0] == 'new']
    I.check(len(new) == 1, 'one analysis')
    I.eqtext(new[0][1], src, 'of the source')
    wrote = [e for e in log if e[0] == 'write']
    I.check(len(wrote) >= 1, 'results stored')
    for e in wrote:
        I.eqtext(e[1], base + '_ra.txt', 'in a file of the base name')
    got = [e for e in log if not isinstance(e, tuple)]
    want = [f'-{m}{"-n_sigma" if c.get("select") == "0" else ""}.{f}' for m in ('m2cnd', 'sdaa') for f in fm if f != 'csv']
    got = [g for g in got if not bool(g[-4:] == '.csv')]
    I.check(len(got) == len(want), 'a picture per measure and format')
    for w in want:
        I.check(contains(I, got, base + '_ra' + w) == 1, 'picture beside the results')
    I.reach('randomness')


def c_randomness(t):
    c = []
    for i, src in enumerate(('.scc', '.shp')):
        for j, f in enumerate((None, ['png', 'pdf'], ['svg', 'tif', 'csv'])):
            for o in ('none', 'name', 'input'):
                c.append(dict(src=src, formats=f, out=o, select=[None, '0', '3,4'][(i + j) % 3], post=['', 'x', '.png'][j], pr=(i + j) % 2 and o == 'none'))
    return c


def c_names(t):
    c = []
    S = [[], [('dir/', 2, '.scc')], [('', 1, '.diam'), ('d.e/', 1, '.scc')], [('', 1, '_CRATER.shp'), ('x/CRATER_', 1, '.shp')], [('b', 1, '.stat'), ('a', 1, '.diam'), ('', 2, '.scc')]]
    for i, pr in enumerate(PRES):
        for j, s in enumerate(S):
            if t != 'quick' or (i + j) % 2 == 0 or pr in ('differential', 'map'):
                c.append(dict(pr=pr, formats=[None, ['pdf'], ['png', 'csv', 'svg']][(i + j) % 3], out='none', sources=s))
        c.append(dict(pr=pr, formats=None, out='dir', slash=['', '/'][i % 2], sources=S[1 + i % 4], sa=4 if i % 4 == 0 else 3))
    for i, f in enumerate((None, ['tif'], ['csv'], ['png', 'pdf'])):
        for pr in ('differential', 'uncertainty'):
            for pre, n, post in (('', 2, ''), ('w/', 1, '.png'), ('a', 1, '.v2'), ('', 1, '.pdf'), ('/tmp/x.y/', 2, '.csv'), ('', 3, ''))[:5 if t == 'quick' else 6]:
                c.append(dict(pr=pr, formats=f, out='name', pre=pre, n=n, post=post, sources=S[1][:1] if i % 2 else []))
            c.append(dict(pr=pr, formats=f, out='ext', sources=[]))
    for pr in ('differential', 'rate', 'map'):
        for o in ('none', 'dir'):
            c.append(dict(pr=pr, formats=None, out=o, input=1, sources=S[1]))
        c.append(dict(pr=pr, formats=['png'], out='none', cs='Mars', sources=[], st=pr == 'rate'))
    c.append(dict(pr='sequence', formats=['png'], out='name', pre='', n=2, post='', sources=S[2], st=1))
    return c


def c_convert(t):
    c = []
    for fmt, srcs in (('stat', ('diam', 'scc', 'shp')), ('scc', ('shp',)), ('png', ('shp', 'scc')), ('pdf', ('scc',))):
        for s in srcs:
            for o in ('none', 'name', 'dir'):
                c.append(dict(fmt=fmt, src=s, out=o, pre='%sample%/' if o == 'none' else 'in/', tag='_CRATER' if s == 'shp' else ''))
    return c


HARNESSES = [
    Harness('names', h_names, c_names, bounds='all presentations with 0..3 sources of 1..2 free characters, with and without the CRATER tag, command files, directories, output names and extensions of up to 3 free characters, requested format sets'),
    Harness('randomness', h_randomness, c_randomness, bounds='randomness analyses of a source of two free characters, default, requested (two free characters) and command-file names, up to three formats, histograms and n-sigma charts'),
    Harness('convert', h_convert, c_convert, bounds='all conversions with a default or a requested name or directory'),
]
ASSUMPTIONS = ['file names that begin with a dot are outside the bounds', 'figures, tables and conversions are stand-ins that record the file names they are given']

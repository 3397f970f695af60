"""P24: the saved .cs command file gives the same command when read back."""
import os
from types import SimpleNamespace
from symx.check import Harness

ALPHA = 'ab -"\'\\#$;=,1.*'


class Parser:
    """stands for the argument parser: remembers the tokens it was given"""

    def __init__(self, log, dflt):
        self.log, self.dflt = log, dflt

    def parse_args(self, a=None, ns=None):
        self.log.append(list(a) if a is not None else None)
        return ns if ns is not None else self.dflt


class Any:
    """an object that accepts everything"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return None


class Patch:
    def __init__(self, m, **k):
        self.m, self.k, self.old = m, k, {}

    def __enter__(self):
        for n, v in self.k.items():
            if hasattr(self.m, n):
                self.old[n] = getattr(self.m, n)
                setattr(self.m, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(self.m, n, v)


def shell(I):
    """the standard library's shlex, executed symbolically as well"""
    if I.sym:
        from symx import shadow
        return shadow.load_stdlib('shlex')
    import shlex
    return shlex


class Plotset(Any):
    def __getattr__(self, n):
        if n in ('autoscale', 'draw', 'create_summary_table', 'create_map_plotspace'):
            return lambda *a, **k: None
        return Any.__getattr__(self, n)


def save(I, argv, out):
    """the text main() saves for this command line (None: nothing saved)"""
    cli = I.mod('craterstats.cli')
    log = []
    d = dict(out=out, format=set(), legend='', presentation='differential')
    ps = Plotset(out=out, palette=['k'], presentation='differential', format=set())
    with Patch(cli, get_parser=lambda: Parser(log, Any()), construct_cps_dict=lambda *a, **k: d,
               construct_plot_dicts=lambda *a, **k: [], set_default_filename=lambda *a, **k: None,
               write_output_files=lambda *a, **k: None, shlex=shell(I)):
        with Patch(I.cst, Functionslist=lambda *a, **k: Any(functions={}), Craterplotset=lambda *a, **k: ps):
            cli.main(argv)
    return out + '.cs'


def load(I, path, opt='-i'):
    """the tokens taken from a command file"""
    cli = I.mod('craterstats.cli')
    log, ns = [], SimpleNamespace()
    wd = os.getcwd()
    try:
        with Patch(cli, shlex=shell(I)):
            a = cli.LoadFromFile([opt], 'input')
            a(Parser(log, ns), ns, path, opt)
    finally:
        os.chdir(wd)
    I.check(len(log) == 1 and log[0] is not None, 'arguments taken from the file')
    return log[0], ns


def same(I, got, want, label):
    I.check(len(got) == len(want), label + ': number of arguments')
    for g, w in zip(got, want):
        I.eqtext(g, w, label)


def words(I):
    c = I.case
    argv = []
    for k, n in enumerate(c['n']):
        pre = c['pre'][k]
        w = I.text(f'w{k}', n, c.get('alpha', ALPHA)) if n else ''
        argv.append(pre + w)
    return argv


def h_round(I):
    argv = words(I)
    I.capture_writes()
    p = save(I, list(argv), os.path.join(I.tmp, 'out'))
    I.check(I.exists(p), 'command file saved')
    got, ns = load(I, p, I.case.get('opt', '-i'))
    same(I, got, argv, 'same arguments')
    I.reach('round')


def h_text(I):
    """characters beyond ASCII, whatever the locale"""
    I.plain_locale()
    h_round(I)


def h_comments(I):
    """comment and blank lines anywhere between the options"""
    c = I.case
    argv = words(I)
    I.capture_writes()
    p = save(I, list(argv), os.path.join(I.tmp, 'out'))
    t = I.readback(p)
    if c['where'] == 'top':
        t = '# produced by x -y "\n\n   \n' + t
    elif c['where'] == 'end':
        t = t + '\n  # don\'t\n\n'
    else:
        first, rest = t.split('\n', 1)
        t = first + '\n\n#' + I.text('comment', 2, 'a "\'-') + '\n \n' + rest
    q = I.writefile('x/changed.cs', t)
    got, ns = load(I, q)
    same(I, got, argv, 'comments and blank lines ignored')
    I.check(ns.input_filename == q and ns.input, 'name of the command file kept')
    I.reach('comments')


def h_place(I):
    """the command file is found however its path is written, and its data and results lie next to it"""
    c = I.case
    cli = I.mod('craterstats.cli')
    argv = words(I)
    I.capture_writes()
    os.makedirs(os.path.join(I.tmp, 'sub'), exist_ok=True)
    p = save(I, list(argv), os.path.join(I.tmp, 'sub', 'x'))
    t = I.readback(p)
    q = I.writefile('sub/y.cs', t)
    log, ns = [], SimpleNamespace()
    wd = os.getcwd()
    try:
        os.chdir(os.path.join(I.tmp, c['cwd']))
        path = q if c['path'] == 'abs' else c['path']
        with Patch(cli, shlex=shell(I)):
            a = cli.LoadFromFile([c['opt']], 'input')
            try:
                a(Parser(log, ns), ns, path, c['opt'])
                err = None
            except (Exception, SystemExit) as e:
                if type(e).__name__ != 'ArgumentError':
                    raise
                err = e
            if c.get('inc') and err is None:
                b = cli.LoadFromFile(['-inc'], 'include')
                b(Parser([], ns), ns, I.writefile('other/z.txt', '-mu'), '-inc')
        I.check(err is None, 'command file found')
        same(I, log[0], argv, 'same arguments')
        d = os.path.abspath(I.gm.filename(ns.input_filename, 'p') + 'data.scc')
        I.check(d == os.path.join(I.tmp, 'sub', 'data.scc'), 'sources next to the command file')
        d = os.path.abspath(I.gm.filename(ns.input_filename, 'pn') + '.png')
        I.check(d == os.path.join(I.tmp, 'sub', 'y.png'), 'results next to the command file')
    finally:
        os.chdir(wd)
    I.reach('place')


def c_round(t):
    c = []
    N = 2 if t == 'quick' else 3
    for n in range(0, N + 1):
        for pre in ('', '-', '-1', 'a'):
            if n + len(pre):
                c.append(dict(n=[0, n], pre=['-p', pre]))
    c += [dict(n=[0, n, m], pre=['-title', a, b], alpha=al) for (n, m) in ((1, 1), (2, 1), (1, 2)) for a, b in (('', ''), ('x', '-'), ('-', 'name='))
          for al in ('a -"\'', 'b\\#$;')]
    c += [dict(n=[0, 0, 1, 0, 1], pre=['-o', '', 'source=', '-f', ''], alpha='a \'"\\'), dict(n=[1, 1], pre=['-', '--']), dict(n=[0, 0, 0], pre=['-title', '', '-mu']),
          dict(n=[0, 2], pre=['-pr', ''], opt='-inc')]
    return c


def c_text(t):
    return [dict(n=[0, n], pre=['-title', pre], alpha=al) for n in ((1, 2) if t == 'quick' else (1, 2, 3)) for pre in ('', 'x ')
            for al in ('a \xe9\u6f22\u2009', 'b\u2028\u2029\x0b\x0c\x85\x1c"', '\xa0\ufeff\u3000 \'')]


def c_place(t):
    return [dict(n=[0, 1], pre=['-p', 'a'], alpha='a \'"', cwd=cwd, path=path, opt=opt, inc=inc) for cwd, path in (('', 'abs'), ('', 'sub/y.cs'), ('sub', 'y.cs'), ('sub', './y.cs'), ('sub', '../sub/y.cs'), ('', './sub/y.cs'), ('', 'sub/../sub/y.cs'))
            for opt in ('-i', '--input') for inc in (0, 1)]


HARNESSES = [
    Harness('place', h_place, c_place, bounds='absolute and relative paths of the command file, with and without a further settings file'),
    Harness('round', h_round, c_round, bounds='command lines of 2..5 arguments with 1..2 (thorough 3) free characters each over letters, digits, blanks, quotes, dashes, backslashes and punctuation, empty arguments included'),
    Harness('text', h_text, c_text, bounds='1..2 (thorough 3) free characters among accented letters, Chinese, unusual blanks and line separators and quotes; files opened without naming an encoding are ASCII'),
    Harness('comments', h_comments, lambda t: [dict(n=[0, n, 0, m], pre=['-a', '', '-b', '-2'], where=w, alpha='a "#') for n, m in ((1, 1), (2, 0)) for w in ('top', 'middle', 'end')], bounds='comment and blank lines before, between and after the options'),
]
ASSUMPTIONS = ['arguments contain no line breaks', 'the argument parser, the plotting and the file names are stand-ins; the standard library module shlex is executed symbolically with the program']

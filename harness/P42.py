"""P42: functions come from the installed list and the user's own file, wherever and however they are defined."""
import os
import sys
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.P19 import same

ALPHA = 'aB1 .,('


class Text:
    """definitions under construction: the text and what it means"""

    def __init__(self, I, tag):
        self.I, self.tag, self.t, self.k, self.want = I, tag, '', 0, {}

    def add(self, s):
        self.t = self.t + s

    def name(self, free):
        self.k += 1
        n = f'{self.tag}{self.k}'
        return n + self.I.text('n' + n, 2, ALPHA) + '.' if free else n

    def num(self, lo, hi):
        self.k += 1
        v = self.I.real(f'{self.tag}v{self.k}', lo, hi)
        return v, self.I.token(v)

    def define(self, kind, free=0, ind='  ', name=None, rem=0):
        n = name or self.name(free)
        d = {'name': n}
        self.add(kind + '={\n' + ind + "name='" + n + "'" + ('  ; name=[other' if rem else '') + '\n')
        if rem:
            self.add("# name='x'\n;  name='y'\n\n")
        if kind == 'chronology_system':
            for k in ('body', 'cf', 'pf'):
                d[k] = 'x' + k
                self.add(ind + k + "='x" + k + "'\n")
        elif kind == 'epochs':
            d.update(epoch=['A', 'B'], formatting=['30', '1', '2r'], reference='')
            v, t = self.num(.1, 4.)
            d['time'] = ['0', t]
            d['_v'] = v
            self.add(ind + "epoch=['A','B']\n" + ind + "formatting=['30','1','2r']\n" + ind + 'time=[0,' + t + ']\n' + ind + "reference=''\n")
        else:
            a, ta = self.num(-5., -1.) if kind != 'chronology' else self.num(1e-4, 1e-2)
            b, tb = self.num(-4., -2.) if kind != 'chronology' else self.num(1e-3, 1e-2)
            c = [ta, tb] if kind != 'chronology' else [ta, '1.5', '0', tb]
            d['coefficients'] = c
            d['_v'] = (a, b)
            self.add(ind + 'coefficients=[')
            for i, e in enumerate(c):
                self.add((',' if i else '') + e)
            self.add(']\n')
            if kind != 'chronology':
                u, tu = self.num(10., 1000.)
                d['range'] = ['0.01', tu]
                d['_u'] = u
                self.add(ind + 'range=[0.01,' + tu + ']\n')
        self.add('}\n')
        self.want.setdefault(kind, []).append(d)
        return d


KINDS = ['chronology_system', 'production', 'chronology', 'equilibrium', 'epochs']


def bare(d):
    return {k: v for k, v in d.items() if k[0] != '_'}


def installed(I, free):
    t = Text(I, 'I')
    t.add('#\n# Moon\n#\n\n')
    for k in KINDS:
        for i in range(2):
            t.define(k, free if i else 0)
            t.add('\n')
    return t


class Env:
    """an installation in a directory of its own"""

    def __init__(self, I, c):
        self.I, self.c = I, c
        self.root = os.path.join(I.tmp, c.get('dir', 'inst'))

    def __enter__(self):
        I, c = self.I, self.c
        self.old = os.environ.get('CONDA_PREFIX')
        os.environ.pop('CONDA_PREFIX', None)
        exe = os.path.join(self.root, 'bin')
        self.place = None
        if c['env'] == 'conda':
            os.environ['CONDA_PREFIX'] = self.root
            self.place = self.root + '/etc'
        elif c['env'] == 'frozen':
            self.exe, sys.executable = sys.executable, exe + '/craterstats'
            sys.frozen = True
            self.place = exe + '/_internal/craterstats'
        if self.place:
            os.makedirs(self.place, exist_ok=True)
        self.patch = Patch(I.cst, PATH=self.root + '/')
        self.patch.__enter__()
        return self

    def __exit__(self, *a):
        self.patch.__exit__(*a)
        if self.old is not None:
            os.environ['CONDA_PREFIX'] = self.old
        else:
            os.environ.pop('CONDA_PREFIX', None)
        if self.c['env'] == 'frozen':
            sys.executable = self.exe
            del sys.frozen


def said(I, f):
    """texts printed while f runs"""
    out = []

    def pr(*a, **k):
        s = ''
        for i, e in enumerate(a):
            s = s + (' ' if i else '') + (I.tostr(e) if isinstance(e, (int, float)) else e)
        out.append(s)
    import builtins
    if I.sym:
        from symx import shadow
        k = len(shadow.PRINTED)
        r = f()
        for e in shadow.PRINTED[k:]:
            pr(*e)
        return r, out
    old, builtins.print = builtins.print, pr
    try:
        r = f()
    finally:
        builtins.print = old
    return r, out


def listed(I, fl, inst, user):
    """installed definitions first and in order, then the user's"""
    I.check(isinstance(fl.functions, dict), 'functions')
    for k in KINDS:
        want = [bare(d) for d in inst.want.get(k, []) + (user.want.get(k, []) if user else [])]
        I.check(k in fl.functions and len(fl.functions[k]) == len(want), k + ': number of definitions')
        for g, w in zip(fl.functions[k], want):
            same(I, g, w, k)
    I.check(sorted(fl.functions) == sorted(KINDS), 'kinds of definitions')


def h_user(I):
    c = I.case
    I.opaque_numbers()
    I.capture_writes()
    I.plain_locale()
    sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))
    m = I.mod('craterstats.miscellaneous')
    with Env(I, c) as e:
        inst = installed(I, c.get('free', 0))
        I.writefile(os.path.join(e.root, 'config/functions.txt'), inst.t)
        fl, _ = said(I, lambda: I.cst.Functionslist())
        listed(I, fl, inst, None)
        if c['env'] == 'none':
            I.reach('user')
            return
        user = Text(I, 'U')
        lay = c.get('layout', 'plain')
        user.add({'plain': '', 'comment': '# my functions = {1\n\n; remark\n', 'blank': '\n\n', 'bom': '\ufeff'}[lay])
        for k in c['kinds']:
            user.define(k, c.get('free', 0), '\t' if lay == 'blank' else '   ', rem=lay == 'comment')
            user.add({'plain': '', 'comment': '; remark={\n# other\n', 'blank': '\n\n', 'bom': ''}[lay])
        path = os.path.join(e.root, c.get('name', 'mine/functions_user.txt'))
        there = c.get('there', 1)
        if there:
            I.writefile(path, user.t)
        if c.get('via') == 'main':
            cli = I.mod('craterstats.cli')
            said(I, lambda: cli.main(['--functions_user'] + path.split(' ')))
        else:
            said(I, lambda: fl.set_user_functions_config(path))
        for k in range(2):
            fl2, out = said(I, lambda: I.cst.Functionslist())
            listed(I, fl2, inst, user if there else None)
            if not there:
                I.check(any(path in s for s in out), 'the missing file is named')
        if not there:                                       # another can be set
            path2 = os.path.join(e.root, 'mine/other.txt')
            I.writefile(path2, user.t)
            cli = I.mod('craterstats.cli')
            said(I, lambda: cli.main(['--functions_user', path2]))
            fl2, out = said(I, lambda: I.cst.Functionslist())
            listed(I, fl2, inst, user)
        # lists shown to the user
        for f in ((lambda: fl2.print()), (lambda: I.mod('craterstats.cli').main(['-lcs']))):
            _, out = said(I, f)
            lines = []
            for s in out:
                lines += s.split('\n')
            names = [d['name'] for k in ('chronology_system', 'equilibrium', 'epochs') for d in inst.want[k] + user.want.get(k, [])]
            for n in names:
                I.check(I.any([s == n for s in lines]), 'every name is listed')
        I.reach('user')


def c_user(t):
    c = [dict(env='none')]
    allk = ['chronology_system', 'chronology', 'production', 'epochs', 'equilibrium']
    c += [dict(env=e, kinds=allk, layout=l) for e in ('conda', 'frozen') for l in ('plain', 'comment', 'blank', 'bom')]
    c += [dict(env=e, kinds=allk, there=0) for e in ('conda', 'frozen')]
    c += [dict(env='conda', kinds=allk, via='main'), dict(env='frozen', kinds=allk, via='main', name='my functions/list of mine.txt'),
          dict(env='conda', kinds=allk, name='eigene Fkt/Größe.txt'), dict(env='conda', kinds=allk, dir='in st;a', via='main', layout='comment')]
    c += [dict(env='conda', kinds=['production', 'production', 'production'], layout='comment'), dict(env='conda', kinds=['epochs']),
          dict(env='conda', kinds=allk, free=1), dict(env='frozen', kinds=allk, free=1, layout='comment'), dict(env='conda', kinds=['chronology_system', 'equilibrium'], free=1), dict(env='frozen', kinds=['epochs', 'production'], free=1, layout='blank')]
    return c


def h_source(I):
    """a definition found by its exact name in a dictionary, a text or a file"""
    c = I.case
    I.opaque_numbers()
    kind = c['kind']
    t = Text(I, 'S')
    if c.get('before'):
        t.add('# list\n\n' if c['via'] != 'text' else '\n\n')
    names = [None] * c['n'] if not c.get('like') else ['Mars, A (2001) b', 'on Mars, A (2001)', 'Mars, A  (2001)', 'mars, A (2001)', 'Mars, A (2001)', 'Mars, A'][:c['n']]
    ds = [t.define(kind, name=n) for n in names]
    other = t.define('production' if kind != 'production' else 'epochs') if c.get('other') else None
    d = ds[c['at']]
    p = I.writefile('fn/list of.txt', t.t)
    src = {'file': p, 'text': t.t, 'dict': {k: [bare(e) for e in v] for k, v in t.want.items()}}[c['via']]
    name = d['name'] if not c.get('absent') else d['name'] + ' '

    def make():
        if kind == 'chronology':
            return I.cst.Chronologyfn(src, name)
        if kind == 'epochs':
            return I.cst.Epochs(src, name, None, None)
        return I.cst.Productionfn(src, name, equilibrium=True) if kind == 'equilibrium' else I.cst.Productionfn(src, name)

    if c.get('absent'):
        try:
            make()
            I.check(False, 'an unknown name is refused')
        except ValueError as e:
            I.check(name in str(e), 'the name is stated')
        I.reach('source')
        return
    f = make()
    I.check(f.name == name, 'name')
    if kind == 'epochs':
        I.check(len(f.time) == 2 and f.time[0] == 0 and f.time[1] == d['_v'], 'epoch limits')
        I.check(f.epoch == ['A', 'B'] and f.formatting == ['30', '1', '2r'], 'epochs')
    elif kind == 'chronology':
        a, b = d['_v']
        I.check(len(f.p) == 4 and f.p[0] == a and f.p[1] == 1.5 and f.p[2] == 0 and f.p[3] == b, 'coefficients')
    else:
        a, b = d['_v']
        I.check(len(f.a) == 2 and f.a[0] == a and f.a[1] == b, 'coefficients')
        I.check(I.all([abs(f.range[0] - .01) < 1e-6, abs(f.range[1] - d['_u']) < 1e-3]), 'range')
    I.reach('source')


def c_source(t):
    c = []
    for kind in KINDS[1:]:
        for via in ('file', 'text', 'dict'):
            for n, at in ((1, 0), (2, 1), (3, 1)) if t == 'quick' else ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
                c.append(dict(kind=kind, via=via, n=n, at=at, before=n > 1, other=n == 3))
            c.append(dict(kind=kind, via=via, n=6, at=4, like=1))
            c.append(dict(kind=kind, via=via, n=1 if via == 'file' else 2, at=0, absent=1))
    return c


HARNESSES = [
    Harness('user', h_user, c_user, bounds='2 installed and 0..5 user definitions of five kinds with symbolic coefficients (and names), three kinds of installation, four layouts, file present or missing, paths with blanks and accents'),
    Harness('source', h_source, c_source, bounds='1..6 definitions (also with similar names) of each kind with symbolic coefficients in a dictionary, a text or a file'),
]
ASSUMPTIONS = ['the path of the user file is absolute', 'names of definitions are distinct and hold no quotes']

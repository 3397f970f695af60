"""P22: overplot specifications (-p) set their own fields and inherit only the documented ones."""
import os
from types import SimpleNamespace
from symx.check import Harness
from harness.P24 import Any, Patch

CARRY = ('source', 'psym', 'snap', 'isochron', 'error_bars', 'colour', 'binning')
DEFAULT = dict(source=None, name='', range=['0', 'inf'], snap=1, type='data', error_bars=1, hide=0, colour=0, psym=1, binning='pseudo-log',
               age_left=0, show_age=1, resurf=0, resurf_showall=0, isochron=0, offset_age=['0', '0'])
FLAGS = ('snap', 'error_bars', 'hide', 'age_left', 'show_age', 'resurf', 'resurf_showall', 'isochron')
KEYS = dict(source=('source', 'src'), name=('name', 'nm'), range=('range', 'rng'), snap=('snap',), type=('type', 'typ'), error_bars=('error_bars', 'err'), hide=('hide',),
            colour=('colour', 'col'), psym=('psym', 'sym'), binning=('binning', 'bin'), age_left=('age_left', 'left'), show_age=('show_age', 'show_a'), resurf=('resurf',),
            resurf_showall=('resurf_showall', 'showall'), isochron=('isochron', 'iso'), offset_age=('offset_age', 'offset'))
TYPES = (('data', 'data'), ('d-fit', 'd-fit'), ('cumulative-fit', 'c-fit'), ('poisson', 'poisson'), ('b-poisson', 'b-poisson'), ('poiss', 'poisson'))
SYMS = ('s', 'o', '*4', '^', '*', 'x', '+', '.', 'v', 'fs', 'fo', 'f*4', 'f^', 'f*', 'fv')


def value(I, k, tag, c):
    """(text given, value expected)"""
    if k in FLAGS:
        v = I.text(tag, 1, '01')
        return v, v
    if k == 'source':
        f = c.get('src', 'rel')
        t = I.text(tag, 2, 'ab/. ' if f != 'plain' else 'ab')
        I.assume(I.all([I.nt(t[0] == '.'), I.nt(t[0] == ' '), I.nt(t[0] == '/')]))
        if f == 'sample':
            return '%sample%/' + t + '.scc', I.cst.PATH + 'sample/' + t + '.scc'
        if f == 'quoted':
            return '"' + t + '.scc"', t + '.scc'
        if f == 'abs':
            return '/x/' + t + '.diam', '/x/' + t + '.diam'
        return t + '.scc', t + '.scc'
    if k == 'name':
        t = I.text(tag, c.get('len', 3), 'aE, =[|')
        I.assume(I.nt(I.all([t[0] == ',', t[1] == 'a', t[2] == '='])))
        I.assume(I.nt(I.all([t[0] == ',', t[1] == 'E', t[2] == '='])))
        for ch in (',', ' '):    # a value that starts or ends with a comma or blank cannot be told from the separators
            I.assume(I.all([I.nt(t[0] == ch), I.nt(t[2] == ch)]))
        return t, t
    if k == 'offset_age':
        a, b = I.choice(tag + 's', ('', '-')) + I.text(tag + 'a', 1, '12'), I.text(tag + 'b', 2, '30')
        return '[' + a + ',' + b + ']', [a, b]
    if k == 'range':
        a, b = I.text(tag + 'a', 2, '12.-b'), I.text(tag + 'b', 2, '3.-b')
        return '[' + a + ',' + b + ']', [a, b]
    if k == 'type':
        return I.choice(tag, TYPES)
    if k == 'binning':
        B = ('pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2', 'none')
        b = I.choice(tag, B)
        return b, b
    if k == 'colour':
        if c.get('hex'):
            t = '#' + I.text(tag, 6, '0aF')
            return t, t
        N = (('black', 0), ('Red', 1), ('green', 2), ('blue', 3), ('yellow', 4), ('violet', 5), ('grey', 6), ('blue1', 7), ('brown2', 12))
        return I.choice(tag, N)
    if k == 'psym':
        i = I.choice(tag, range(len(SYMS) + 2))
        if i == len(SYMS):
            return 'filled circle', 10
        if i == len(SYMS) + 1:
            return 'square', 0
        return SYMS[i], i


def equal(I, got, want, label):
    if isinstance(want, list):
        I.check(len(got) == len(want), label)
        for g, w in zip(got, want):
            I.eqtext(g, w, label)
    elif isinstance(want, int) or want is None:
        I.check(not isinstance(got, str) and bool(got == want) or str(got) == str(want), label)
    else:
        I.eqtext(got, want, label)


class Count:
    def __init__(self, f, *a, **k):
        self.filename = f

    def decode_range(self, r, b, s):
        return ('decoded', r, b, s)


def parse(I, given):
    """list of the texts (pieces) after each -p -> the list of dictionaries the program makes of them"""
    cli = I.mod('craterstats.cli')
    a = cli.AppendPlotDict(['-p'], 'plot')
    ns = SimpleNamespace(plot=None)
    for v in given:
        a(None, ns, v, '-p')
    return ns.plot


def h_specs(I):
    c = I.case
    cli = I.mod('craterstats.cli')
    texts, expect = [], []
    for i, keys in enumerate(c['specs']):
        t, e = None, {}
        for k in keys:
            form = KEYS[k][c.get('abbr', 0) % len(KEYS[k])]
            v, w = value(I, k, f'{k}{i}', c)
            kv = form + '=' + v
            t = kv if t is None else t + ',' + kv
            e[k] = w
        texts.append([t])
        expect.append(e)
    import copy
    dflt = copy.deepcopy(I.cst.DEFAULTS['plot'])
    args = Any(plot=parse(I, texts))
    base = ''
    if c.get('input'):
        args.input, args.input_filename = True, '/in/put.d/x.cs'
        base = '/in/put.d/'
    pres = c.get('pres', 'differential')
    stub = type('Cratercount', (Count,), dict(I.cst.Cratercount.__dict__))
    stub.__init__, stub.decode_range = Count.__init__, Count.decode_range
    with Patch(I.cst, Cratercount=stub):
        got = cli.construct_plot_dicts(args, dflt, dict(presentation=pres))
        want, prev = [], None
        for e in expect:
            w = dict(DEFAULT)
            if prev is not None:
                for k in CARRY:
                    w[k] = prev[k]
            for k in e:
                w[k] = e[k]
            if 'source' in e and not bool(w['source'][0] == '/'):
                w['source'] = base + w['source']
            if 'type' not in e:
                w['type'] = 'poisson' if pres == 'sequence' else 'data'
                if prev is not None and bool(prev['source'] == w['source']):
                    w['type'] = prev['type']
            want.append(w)
            prev = w
        I.check(len(got) == len(want), 'one overplot per specification')
        for g, w in zip(got, want):
            for k in DEFAULT:
                equal(I, g[k], w[k], k)
            I.eqtext(g['cratercount'].filename, w['source'], 'data of its own source')
        if not c.get('lists'):
            cp = [I.cst.Craterplot(g) for g in got]
            for p, w in zip(cp, want):
                for j in (0, 1):
                    I.check(p.offset_age[j] == I.tonum(w['offset_age'][j]), 'offset of the overplot')
                for k in FLAGS + ('psym',):
                    I.check(p.__dict__[k] == I.tonum(w[k]) if not isinstance(w[k], int) else p.__dict__[k] == w[k], k + ' of the overplot')
                I.check(p.range[0] == 'decoded' and p.cratercount is got[cp.index(p)]['cratercount'], 'range decoded by its own data')
                equal(I, p.range[1], w['range'], 'range of the overplot')
                equal(I, p.range[2], w['binning'], 'binning of the overplot')
                equal(I, p.type, w['type'], 'type of the overplot')
    equal(I, dflt['range'], DEFAULT['range'], 'defaults unchanged')
    I.check(all(dflt[k] == DEFAULT[k] for k in DEFAULT), 'defaults unchanged')
    I.reach('specs')


def h_split(I):
    """a specification given as several words"""
    c = I.case
    words, whole = [], None
    for i, (pre, n) in enumerate(c['words']):
        w = pre + (I.text(f'w{i}', n, 'a,=. [') if n else '')
        words.append(w)
        whole = w if whole is None else whole + ' ' + w
    # expected: split before every key= that follows a comma
    pairs, cur = [], ''
    s = whole
    i = 0
    while i < len(s):
        if bool(s[i] == ','):
            j = i + 1
            while j < len(s) and bool(s[j] == 'a') or j < len(s) and bool(s[j] == 'k'):
                j += 1
            if j > i + 1 and j < len(s) and bool(s[j] == '='):
                pairs.append(cur)
                cur = ''
                i += 1
                continue
        cur = cur + s[i]
        i += 1
    pairs.append(cur)
    want, bad = [], False
    for p in pairs:
        k = 0
        while k < len(p) and not bool(p[k] == '='):
            k += 1
        if k == len(p):
            bad = True
        else:
            want.append((p[:k], p[k + 1:]))
    if bad:
        _, code = I.call_exit(lambda: parse(I, [words]))
        I.check(code is not None, 'a piece without = is refused')
        I.reach('refused')
        return
    got = parse(I, [['a=1'], words])
    I.check(len(got) == 2, 'one more specification')
    d = got[1]
    for n, (k, v) in enumerate(want):
        if any(bool(k == k2) for k2, _ in want[n + 1:]):
            continue
        m = [g for q, g in d.items() if bool(q == k)]
        I.check(len(m) == 1, 'key found once')
        I.eqtext(m[0], v, 'value kept whole')
    I.reach('split')


def c_specs(t):
    c = []
    ks = [k for k in DEFAULT if k != 'source']
    for k in ks:
        for pat in ((1, 0), (0, 1), (1, 1)) if t == 'quick' else ((1, 0, 0), (0, 1, 0), (1, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1)):
            specs = [['source'] + [k] * p if i == 0 else [k] * p for i, p in enumerate(pat)]
            for i in range(1, len(specs)):
                if not specs[i]:
                    specs[i] = ['hide'] if k != 'hide' else ['snap']
            if k in ('psym', 'binning', 'colour') and sum(pat) > 1:
                continue
            c.append(dict(specs=specs, src='plain'))
            # the same with another source in the last one, and the keys in the other order
            c.append(dict(specs=specs[:-1] + [specs[-1][::-1] + ['source']], src='plain', abbr=1))
    for src in ('rel', 'sample', 'quoted', 'abs'):
        for inp in (0, 1):
            c.append(dict(specs=[['source'], ['hide'], ['range', 'source']], src=src, input=inp))
            c.append(dict(specs=[['source', 'type'], ['range']], src=src, input=inp))
    for pres in ('sequence', 'cumulative'):
        c += [dict(specs=[['source', 'range'], ['source', 'snap'], ['hide']], src='plain', pres=pres),
              dict(specs=[['source'], ['type'], ['source'], ['snap']], src='plain', pres=pres),
              dict(specs=[['type', 'source'], ['source']], src='plain', pres=pres)]
    c += [dict(specs=[['colour', 'source'], ['psym'], ['colour']], src='plain', hex=1), dict(specs=[['offset_age', 'name', 'source'], ['range', 'name']], src='plain'),
          dict(specs=[['source', 'snap', 'error_bars', 'isochron'], ['snap'], ['error_bars']], src='plain'),
          dict(specs=[['resurf', 'age_left', 'source'], ['show_age', 'resurf_showall'], ['hide']], src='plain')]
    return c


def c_split(t):
    n = 2 if t == 'quick' else 3
    return [dict(words=w) for w in ([['a=', n], ['b', n]], [['k=', 1], ['', n]], [['name=a', n + 1], ['', 1]], [['src=x.scc,k', n]], [['k', n + 1]], [['k=x', 0], ['kk=y', 1], ['', 1]], [['r=[', n], ['k=2]', 0]],
                                     [['', n], [',k=1', 0]])]


HARNESSES = [
    Harness('specs', h_specs, c_specs, bounds='2..4 overplots, every key given in any of them in several orders and spellings, all values of enumerated fields, free names, sources, ranges and offsets'),
    Harness('split', h_split, c_split, bounds='specifications of 1..3 words with up to 4 free characters (letters, commas, equals signs, blanks, brackets)'),
]
ASSUMPTIONS = ['crater counts are stand-ins that remember their file name', 'a value does not itself contain a comma followed by a word and an equals sign']

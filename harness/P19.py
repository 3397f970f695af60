"""P19: structured text (keys with plain values, lists, tables and nested structures)."""
import itertools
from symx.check import Harness

VAL = 'a1-.'
QV = 'a ;,=#'


class Block:
    def __init__(self, v):
        self.v = v


class B:
    """text under construction with free pieces"""

    def __init__(self, I, layout):
        self.I, self.layout, self.n, self.t, self.cap = I, layout, 0, '', 4 if I.tier == 'quick' else 6

    def add(self, s):
        self.t = self.t + s

    def free(self, n, alpha):
        self.n += 1
        if self.n > self.cap:
            return alpha[:n]
        return self.I.text(f'v{self.n}', n, alpha)

    def end(self):
        """what may follow a value on its line"""
        self.add({'plain': '', 'comment': ' ;rem = [x', 'tab': '\t', 'spaced': '  '}[self.layout])
        self.add('\n')
        if self.layout == 'comment':
            self.add('# a = 77\n')
        if self.layout == 'spaced':
            self.add('\n')

    def eq(self):
        return {'plain': '=', 'comment': ' = ', 'tab': '\t=\t', 'spaced': '  =   '}[self.layout]

    def entry(self, key, kind, indent=''):
        """write one entry; return its value"""
        self.add(indent + key + self.eq())
        v = getattr(self, 'k_' + kind)(indent)
        return v

    def k_plain(self, ind):
        v = self.free(2, VAL)
        self.add(v)
        self.end()
        return v

    def k_words(self, ind):
        v, w = self.free(1, VAL), self.free(1, VAL + "'")
        self.add(v + ' ' + w + 'x')
        self.end()
        return v + ' ' + w + 'x'

    def k_dq(self, ind):
        v = self.free(2, QV + "'")
        self.add('"' + v + '"')
        self.end()
        return v

    def k_sq(self, ind):
        v = self.free(2, QV + '"')
        self.add("'" + v + "'")
        self.end()
        return v

    def k_list(self, ind, o='[', c=']'):
        e = [self.free(2, VAL), self.free(1, VAL), self.free(1, 'a ;=#')]
        sep = {'plain': ',', 'comment': ', ', 'tab': ',\t', 'spaced': ' , '}[self.layout]
        pad = {'plain': '', 'comment': '', 'tab': '\t', 'spaced': ' '}[self.layout]
        self.add(o + pad + e[0] + sep + e[1] + sep + "'" + e[2] + "'" + pad + c)
        self.end()
        return e

    def k_paren(self, ind):
        return self.k_list(ind, '(', ')')

    def k_table(self, ind, rows=2):
        sep = {'plain': ',', 'comment': ', ', 'tab': ',\t', 'spaced': ' , '}[self.layout]
        bl = {'plain': ' ', 'comment': '  ', 'tab': '\t', 'spaced': '   '}[self.layout]
        self.add('{n' + sep + 'w' + sep + 'z')
        self.end_row()
        r = {'n': [], 'w': [], 'z': []}
        for k in range(rows):
            a, b = self.free(2, VAL), self.free(1, 'a ,;=#' if self.layout != 'spaced' else 'a ,=#')
            z = 'q' if k == 0 else ''
            self.add(('  ' if self.layout == 'spaced' else '') + a + bl + '"' + b + '"' + (bl + z if z else ''))
            self.end_row()
            for key, x in zip('nwz', (a, b, z)):
                r[key].append(x)
        self.add(ind + '}')
        self.end()
        return r

    def end_row(self):
        self.add({'plain': '', 'comment': ' ;rem', 'tab': '\t', 'spaced': ' '}[self.layout] + '\n')
        if self.layout == 'comment':
            self.add('# 1 2 3\n;1 2\n')
        if self.layout == 'spaced':
            self.add('\n')

    def k_empty(self, ind):
        return self.k_table(ind, 0)

    def k_struct(self, ind, inner=('plain', 'dq')):
        self.add('{\n')
        r = {}
        for key, kind in zip('pr', inner):
            r[key] = self.entry(key, kind, ind + '  ')
        self.add(ind + '}')
        self.end()
        return r

    def k_deep(self, ind):
        return self.k_struct(ind, ('table', 'list'))

    def k_block(self, ind):
        v = self.free(2, 'a1+=')
        self.add('"\n' + v + '\n"')
        self.end()
        return Block(v)


def same(I, g, w, label):
    if isinstance(w, dict):
        I.check(isinstance(g, dict) and sorted(g) == sorted(w), label + ': keys')
        for k in w:
            same(I, g[k], w[k], label)
    elif isinstance(w, list):
        I.check(isinstance(g, list) and len(g) == len(w), label + ': number of values')
        for a, b in zip(g, w):
            same(I, a, b, label)
    elif isinstance(w, Block):
        I.check(isinstance(g, str), label + ': kind of value')
        I.eqtext(g.strip(), w.v, label)      # line ends around a text block do not matter
    elif isinstance(g, str):
        I.eqtext(g.strip() if w == '' else g, w, label)
    else:
        I.check(False, label + ': kind of value')


def h_entries(I):
    c = I.case
    b = B(I, c['layout'])
    if c['layout'] in ('comment', 'spaced'):
        b.add('# heading = {1\n\n; note = 3\n')
    want = {}
    for key, kind in zip(c['keys'], c['kinds']):
        v = b.entry(key, kind)
        if c['keys'].count(key) > 1:
            want.setdefault(key, []).append(v)
        else:
            want[key] = v
    p = I.writefile('s.txt', b.t)
    got = I.gm.read_textstructure(p)
    same(I, got, want, c['keys'][0] if len(c['keys']) == 1 else 'entries')
    if c['layout'] in ('plain', 'tab'):
        got = I.gm.read_textstructure(b.t, from_string=True)
        same(I, got, want, 'same from a string')
    I.reach('entries')


KINDS = ['plain', 'words', 'dq', 'sq', 'list', 'paren', 'table', 'empty', 'struct', 'deep', 'block']
LAY = ['plain', 'comment', 'tab', 'spaced']


def c_entries(t):
    c = []
    for i, k in enumerate(KINDS):
        for l in LAY:
            c.append(dict(keys=['a'], kinds=[k], layout=l))
    for (i, a), (j, b) in itertools.product(enumerate(KINDS), repeat=2):
        lays = LAY if t != 'quick' else [LAY[(i + j) % 4]]
        for l in lays:
            c.append(dict(keys=['aa', 'b.c'], kinds=[a, b], layout=l))
    for i, k in enumerate(KINDS):
        c.append(dict(keys=['s', 's'], kinds=[k, k], layout=LAY[i % 4]))
        c.append(dict(keys=['s', 'x', 's'], kinds=[k, 'plain', KINDS[(i + 3) % len(KINDS)]], layout=LAY[(i + 1) % 4]))
    c.append(dict(keys=['s', 's', 's'], kinds=['struct', 'struct', 'struct'], layout='comment'))
    c.append(dict(keys=['e', 's', 'e', 's'], kinds=['struct', 'plain', 'deep', 'list'], layout='plain'))
    return c


HARNESSES = [
    Harness('entries', h_entries, c_entries, bounds='1..4 entries in all pairs of eleven kinds (plain, several words, quoted, two list styles, tables of 0..2 rows, structures with plain entries and with tables, text blocks, repeated keys), free values of 1..2 characters, four layouts with comments, tabs and blank lines'),
]
ASSUMPTIONS = ['structures are nested one level deep (they may contain tables and lists), as in the shipped files', 'list elements contain no commas']

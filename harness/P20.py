"""P20: splitting text into items, quotes, comment removal and reading text lines."""
from symx.check import Harness

BLANKS = [' ', '  ', '\t', ' \t ']
PLAIN = 'ab,;=#."\''
INSIDE = 'a ,;\t#\'"'


def jn(sep, l):
    t = ''
    for k, e in enumerate(l):
        t = t + (sep if k else '') + e
    return t


def among(ch, cs):
    return any(bool(ch == c) for c in cs)


def item(I, k, kind, n):
    """(text as written, value)"""
    if kind == 'plain':
        t = I.text(f't{k}', n, PLAIN if n > 1 else 'ab,;=')
        I.assume(I.nt(I.any([t[0] == '"', t[0] == "'"])))
        return t, t
    q = {'dq': '"', 'sq': "'"}[kind]
    t = I.text(f't{k}', n, [c for c in INSIDE if c != q]) if n else ''
    return q + t + q, t


def h_split(I):
    """items joined by blanks, quoted where necessary, are found again"""
    c = I.case
    text, want = c['lead'], []
    for k, (kind, n) in enumerate(c['items']):
        w, v = item(I, k, kind, n)
        if k:
            text = text + c['seps'][k - 1]
        text = text + w
        want.append(v)
    text = text + c['tail']
    got = I.gm.quoted_split(text)
    I.check(len(got) == len(want), 'number of items')
    for g, w in zip(got, want):
        I.eqtext(g, w, 'items are recovered')
    I.reach('split')


def h_comma(I):
    """items separated by commas and blanks"""
    c = I.case
    text, want = '', []
    for k, (kind, n) in enumerate(c['items']):
        if kind == 'plain':
            v = w = I.text(f't{k}', n, 'a=.;\'')
            I.assume(I.nt(v[0] == "'"))
        else:
            v = I.text(f't{k}', n, 'a ,;') if n else ''
            w = '"' + v + '"'
        text = text + (c['sep'] if k else '') + w
        want.append(v)
    got = I.gm.quoted_split(text, separator=r'\s,')
    I.check(len(got) == len(want), 'number of items')
    for g, w in zip(got, want):
        I.eqtext(g, w, 'items are recovered')
    I.reach('comma')


def h_nothing_lost(I):
    """any text: the characters of the items are those of the text apart from blanks and quotes, in order"""
    t = I.text('t', I.case['n'], 'ab "\'\t')
    got = I.gm.quoted_split(t)
    drop = ' \t"\''
    left = jn('', [ch for e in got for ch in e if not among(ch, drop)])
    right = jn('', [ch for ch in t if not among(ch, drop)])
    I.eqtext(left, right, 'nothing is lost')
    if not any(among(ch, '"\'') for ch in t):
        w = t.split()
        I.check(len(got) == len(w), 'unquoted text separates at blanks')
        for a, b in zip(got, w):
            I.eqtext(a, b, 'unquoted text separates at blanks')
    I.reach('lost')


def h_quotes(I):
    """matching outer quotes only are removed, once"""
    t = I.text('t', I.case['n'], 'a \'"')
    r = I.gm.strip_quotes(t)
    if len(t) > 1 and ((t[0] == '"' and t[-1] == '"') or (t[0] == "'" and t[-1] == "'")):
        I.eqtext(r, t[1:-1], 'outer quotes removed')
    else:
        I.eqtext(r, t, 'unquoted text unchanged')
    I.reach('quotes')


def cut(t):
    """the text before the first comment sign outside quotes"""
    i = 0
    while i < len(t):
        ch = t[i]
        if ch == ';':
            return t[:i]
        if ch == '"' or ch == "'":
            j = i + 1
            while j < len(t) and not (t[j] == ch):
                j += 1
            if j < len(t):
                i = j          # closed: skip to the closing quote
        i += 1
    return t


def h_comment(I):
    lines = [I.text(f'l{k}', n, I.case['alpha']) for k, n in enumerate(I.case['n'])]
    p = I.writefile('t.txt', jn('\n', lines))
    got = I.gm.read_textfile(p, strip=';')
    I.check(len(got) == len(lines), 'number of lines')
    for g, l in zip(got, lines):
        I.eqtext(g, cut(l), 'cut at the first comment sign outside quotes')
    one = I.gm.read_textfile(p, strip=';', as_string=True)
    I.eqtext(one, jn('\n', got), 'lines joined')
    I.reach('comment')


def h_lines(I):
    c = I.case
    lines = [I.text(f'l{k}', n, 'a #;') if n else '' for k, n in enumerate(c['n'])]
    text = jn('\n', lines) + ('\n' if c['final'] else '')
    if c['bom']:
        text = '\ufeff' + text
    p = I.writefile('t.txt', text)
    got = I.gm.read_textfile(p, ignore_blank=c['blank'], ignore_hash=c['hash'])
    want = list(lines) if len(text) > c['bom'] else []
    if c['final']:
        want = want + ['']
    keep = []
    for l in want:
        s = l.strip()
        if c['hash'] and len(s) and s[0] == '#':
            continue
        if c['blank'] and not len(l):
            continue
        keep.append((l, c['blank'] and not len(s)))      # a line of blanks only may count as blank
    i = 0
    for l, optional in keep:
        if i < len(got) and got[i] == l:
            i += 1
        else:
            I.check(optional, 'each line in order')
    I.check(i == len(got), 'no other lines')
    if c['bom'] == 0 and not c['blank'] and not c['hash']:
        k = min(2, len(lines))
        first = I.gm.read_textfile(p, n_lines=k)
        I.check(len(first) == k, 'requested number of lines')
        for a, b in zip(first, lines):
            I.eqtext(a, b.strip(), 'first lines')
    I.reach('lines')


def c_split(t):
    kinds = [('plain', 1), ('plain', 2), ('dq', 0), ('dq', 2), ('sq', 1), ('sq', 2)]
    if t != 'quick':
        kinds += [('plain', 3), ('dq', 3), ('sq', 3)]
    c = []
    for i, a in enumerate(kinds):
        c.append(dict(items=[a], seps=[], lead='', tail=''))
        for j, b in enumerate(kinds):
            c.append(dict(items=[a, b], seps=[BLANKS[(i + j) % 4]], lead=['', ' '][(i + j) % 2], tail=['', '\t'][j % 2]))
    tri = [('plain', 1), ('dq', 1), ('sq', 1)]
    for a in tri:
        for b in tri:
            for d in tri:
                c.append(dict(items=[a, b, d], seps=[' ', '  '], lead='', tail=' '))
    return c


HARNESSES = [
    Harness('split', h_split, c_split, bounds='1..3 items, plain, double or single quoted, of 0..2 (thorough 3) characters each over letters, separators, comment signs, blanks and the other quote'),
    Harness('comma', h_comma, lambda t: [dict(items=list(x), sep=s) for s in (',', ', ', ' ') for x in ((('plain', 2), ('dq', 2)), (('dq', 1), ('plain', 2)), (('dq', 2), ('dq', 0)), (('plain', 1), ('dq', 1), ('plain', 2)))], bounds='2..3 items separated by commas and blanks'),
    Harness('lost', h_nothing_lost, lambda t: [dict(n=n) for n in range(0, 5 if t == 'quick' else 6)], bounds='all texts up to 4 (thorough 5) characters over letters, blanks and quotes'),
    Harness('quotes', h_quotes, lambda t: [dict(n=n) for n in range(0, 6)], bounds='all texts up to 5 characters'),
    Harness('comment', h_comment, lambda t: [dict(n=n, alpha='a ;"\'') for n in ([1], [2], [3], [4], [5], [2, 2], [1, 0, 2]) + (([6], [3, 3]) if t != 'quick' else ())], bounds='1..3 lines, up to 5 (thorough 6) characters over letters, blanks, both quotes and the comment sign'),
    Harness('lines', h_lines, lambda t: [dict(n=n, final=f, blank=b, hash=h, bom=(len(n) + f) % 2) for n in ([0], [3], [2, 2], [0, 2, 1], [1, 0, 2]) for f in (0, 1) for b in (0, 1) for h in (0, 1)], bounds='1..3 lines of up to 3 characters, with and without final newline, byte order mark and the two filters'),
]
ASSUMPTIONS = ['texts contain no backslashes (an escape sign before a quote) and quoted items are followed by a blank, as the program writes and documents them',
               'the comment sign is the semicolon, the only one the program uses']

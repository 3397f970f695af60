"""P21: path, name and extension of file names."""
from symx.check import Harness

SEP = '/\\'
WORD = 'aA1_'
OTHER = " .-,=()&'+#[]"


WORDS = ''.join(chr(c) for c in range(48, 123) if chr(c).isalnum()) + '_'


def among(ch, cs):
    return any(bool(ch == c) for c in cs)


def parts(f, m):
    """reference split of a symbolic name"""
    k = len(f)
    while k > 0 and not among(f[k - 1], SEP + ':'):
        k -= 1
    j = len(f)
    while j > k and j > len(f) - m and among(f[j - 1], WORDS):
        j -= 1
    if j < len(f) and j > k and f[j - 1] == '.':
        return f[:k], f[k:j - 1], f[j - 1:]
    return f[:k], f[k:], ''


def name(I, tag, n, alpha=SEP + WORD + OTHER):
    return I.text(tag, n, alpha) if n else ''


def h_split(I):
    c = I.case
    m = c['max']
    f = c['pre'] + name(I, 'f', c['n']) + c['post']
    k = {} if m == 4 else dict(max_ext_length=m)
    F = lambda code, *a: I.gm.filename(f, code, *a, **k)
    p, n, e = F('p'), F('n'), F('e')
    I.eqtext(p + n + e, f, 'the parts joined give the file name')
    wp, wn, we = parts(f, m)
    I.eqtext(p, wp, 'path')
    I.eqtext(n, wn, 'name')
    I.eqtext(e, we, 'extension')
    I.eqtext(F('pne'), f, 'rebuilt')
    I.eqtext(F('pn1e', '_en'), p + n + '_en' + e, 'inserted before the extension')
    I.reach('split')


def h_codes(I):
    c = I.case
    f = c['pre'] + name(I, 'f', c['n'], WORD + OTHER) + c['post']
    x = name(I, 'x', 2, 'a./ ')
    y = name(I, 'y', 1, 'b(')
    p, n, e = parts(f, 4)
    F = I.gm.filename
    I.eqtext(F(f, 'p1e', x), p + x + e, 'text in place of the name')
    I.eqtext(F(f, 'pn1', x), p + n + x, 'text in place of the extension')
    I.eqtext(F(f, 'pn12e', x, y), p + n + x + y + e, 'two insertions')
    I.eqtext(F(f, '2p1ne', x, y), y + p + x + n + e, 'two insertions')
    I.eqtext(F(f, 'ne'), n + e, 'without path')
    I.eqtext(F(f, 'e'), e, 'extension')
    I.reach('codes')


def h_parent(I):
    a = name(I, 'a', I.case['na'], 'a1. (-')
    b = name(I, 'b', I.case['nb'], 'b2. (-')
    n = name(I, 'n', 1, 'ab(')
    s = I.case['sep']
    f = a + s + b + s + n + '.txt'
    F = I.gm.filename
    I.eqtext(F(f, 'p'), a + s + b + s, 'path')
    I.eqtext(F(f, 'b'), b + s, 'name of the folder')
    I.eqtext(F(f, 'u'), a + s, 'parent of the folder')
    I.eqtext(F(f, 'bne'), b + s + n + '.txt', 'folder, name and extension')
    I.reach('parent')


def h_list(I):
    m = I.case['max']
    k = {} if m == 4 else dict(max_ext_length=m)
    fs = [name(I, f'f{i}', x, 'a./(') + I.case['post'] for i, x in enumerate(I.case['n'])]
    for code in ('n', 'e', 'p', 'pne'):
        r = I.gm.filename(fs, code, **k)
        I.check(len(r) == len(fs), 'element by element')
        for g, f in zip(r, fs):
            p, n, e = parts(f, m)
            I.eqtext(g, {'n': n, 'e': e, 'p': p, 'pne': f}[code], 'element by element')
    r = I.gm.filename(fs, 'pn1e', '_x')
    for g, f in zip(r, fs):
        p, n, e = parts(f, 4)
        I.eqtext(g, p + n + '_x' + e, 'element by element')
    I.reach('list')


def c_split(t):
    N = 4 if t == 'quick' else 5
    c = [dict(n=n, pre='', post='', max=4) for n in range(1, N)]
    c += [dict(n=n, pre=p, post=q, max=m) for n in (1, 2, 3) for p, q, m in (('/tmp/a b', '.diam', 4), ('d:\\tmp\\', '.scc', 4), ('x.y/', '_ra.txt', 4), ('', '.binned', 6), ('', '.binned', 4), ('../', '.c', 4), ('a(1', '', 4))]
    c += [dict(n=n, pre='C:', post=q, max=4) for n in (1, 2, 3) for q in ('', '.diam')]
    return c


HARNESSES = [
    Harness('split', h_split, c_split, bounds='all names of 1..3 (thorough 4) characters over letters, digits, dots, both separators, blanks and punctuation, alone and inside longer names with usual paths, drive prefixes and extensions'),
    Harness('codes', h_codes, lambda t: [dict(n=n, pre=p, post=q) for n in (1, 2) for p, q in (('', ''), ('dir/', '.txt'), ('C:\\data\\', '.csv'))], bounds='names with up to 2 free characters and up to 3 free inserted characters'),
    Harness('parent', h_parent, lambda t: [dict(na=a, nb=b, sep=s) for a in (1, 2) for b in (1, 2) for s in SEP], bounds='two folder names of 1..2 free characters, both separators'),
    Harness('list', h_list, lambda t: [dict(n=n, post=q, max=m) for n in ([1], [2, 1]) for q, m in (('', 4), ('.diam', 4), ('.binned', 6))], bounds='lists of 1..2 names'),
]
ASSUMPTIONS = ['a colon counts as the end of a drive prefix; it does not occur elsewhere']

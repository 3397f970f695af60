"""P23: abbreviations of names."""
from symx.check import Harness

LISTS = ['presentations', 'types', 'keys', 'binnings', 'planets', 'colours', 'symbols', 'systems', 'equilibrium', 'epochs']


def shipped(I, which):
    cst = I.cst
    if which == 'presentations':
        return list(cst.PRESENTATIONS)
    if which == 'types':
        return list(cst.OPLOT_TYPES)
    if which == 'keys':
        return list(cst.CRATERPLOT_KEYS)
    if which == 'binnings':
        return list(cst.Cratercount.BINNINGS)
    if which == 'planets':
        return list(cst.PLANETS)
    if which == 'colours':
        return [c[2] for c in cst.PALETTE]
    if which == 'symbols':
        return [m[1] for m in cst.MARKERS]
    f = functions(I)
    return [e['name'] for e in f[{'systems': 'chronology_system'}.get(which, which)]]


_f = []


def functions(I):
    if not _f:
        _f.append(I.cst.Functionslist().functions)
    return _f[0]


def low(ch):
    return ch.lower()


def ordered(I, v, item):
    """the characters of v occur in item in this order, whatever their case"""
    m = len(item)
    ok = [[True] * (m + 1)]
    for i in range(len(v)):
        row = [False] * (m + 1)
        for j in range(m):
            e = I.any([v[i] == x for x in {item[j].lower(), item[j].upper()}]) if type(item) is str else same_letter(I, v[i], item[j])
            hit = I.all([ok[-1][j], e])
            row[j + 1] = I.any([row[j], hit])
        ok.append(row)
    return ok[-1][m]


PAIRS = ['aA', 'bB']


def same_letter(I, x, y):
    return I.any([x == y] + [I.all([x == p, y == q]) for p, q in ('aA', 'Aa', 'bB', 'Bb')])


def judge(I, items, v, amb, inv):
    f = I.mod('craterstats.cli').decode_abbreviation
    k = dict(allow_ambiguous=amb)
    if inv:
        k['allow_invalid'] = True
    r, msg = I.call_exit(f, items, v, **k)
    fits = [ordered(I, v, e) for e in items]
    n = I.count(fits)
    if r is None:
        I.check(isinstance(msg, str) and len(msg) > 0, 'refused with a message')
        I.check(I.any([n > 1 if not amb else False, n == 0 if not inv else False]), 'refused only when ambiguous or absent')
        I.reach('refused')
        return
    if r == -1:
        I.check(inv, 'absence reported only when allowed')
        I.check(n == 0, 'reported absent only when absent')
        I.reach('absent')
        return
    I.check(0 <= r < len(items), 'an item of the list')
    I.check(fits[r], 'the item has the letters in order')
    if not amb:
        I.check(n == 1, 'ambiguity is refused')
    for k, e in enumerate(items):
        if k != r and (len(e) < len(items[r]) or (len(e) == len(items[r]) and k < r)):
            I.check(I.nt(fits[k]), 'shortest, then first, item')
    I.reach('found')


def h_shipped(I):
    c = I.case
    items = shipped(I, c['list'])
    if c['alpha'] == 'own':
        alpha = ''.join(sorted(set(''.join(items))))
        if c['n'] > 1:
            alpha = ''.join(sorted(set(alpha.lower())))
    else:
        alpha = c['alpha']
    v = I.text('v', c['n'], alpha + c.get('more', ''))
    judge(I, items, v, c['amb'], c['inv'])


def h_any(I):
    """lists of free items"""
    c = I.case
    items = [I.text(f'e{k}', n, c['alpha']) for k, n in enumerate(c['items'])]
    v = I.text('v', c['n'], c['alpha'])
    judge(I, items, v, c['amb'], c['inv'])


def h_full(I):
    """every shipped name, written in full and in any mixture of cases of one letter"""
    items = shipped(I, I.case['list'])
    lo, hi = I.case['part']
    k = I.choice('item', range(lo, min(hi, len(items))))
    v = items[k]
    f = I.mod('craterstats.cli').decode_abbreviation
    for t in (v, v.lower(), v.upper()):
        r, msg = I.call_exit(f, items, t, allow_ambiguous=I.case['amb'])
        I.check(r is not None and items[r].lower() == v.lower(), 'a full name gives itself')
    r, msg = I.call_exit(f, tuple(items), v, one_based=True, allow_ambiguous=True)
    I.check(r is not None and items[r].lower() == v.lower(), 'a full name gives itself')
    I.reach('full')


AMB = {'presentations': 0, 'planets': 0}


def c_shipped(t):
    c = []
    for l in LISTS:
        amb = bool(AMB.get(l, 1))
        c.append(dict(list=l, n=1, alpha='own', more='#?*+(', amb=amb, inv=l == 'planets'))
        c.append(dict(list=l, n=2, alpha={'systems': 'mn(1', 'epochs': 'mn(1', 'equilibrium': 'ste(', 'keys': 'oasr_', 'presentations': 'cdrmue-'}.get(l, 'cfsr1-e'), amb=amb, inv=False))
        if t != 'quick':
            c.append(dict(list=l, n=2, alpha='own', amb=amb, inv=False))
            c.append(dict(list=l, n=3, alpha={'systems': 'mn[.', 'epochs': 'mn(1', 'equilibrium': 'ste(', 'keys': 'oas_', 'presentations': 'cdmu-'}.get(l, 'cfs1-e'), amb=amb, inv=True))
    return c


def c_any(t):
    c = []
    sizes = [[1], [2], [1, 2], [2, 2]] + ([[3, 2]] if t != 'quick' else [])
    for s in sizes:
        for n in (1, 2):
            for amb, inv in ((True, False), (False, False), (False, True)):
                c.append(dict(items=s, n=n, alpha='aAb(' if sum(s) + n < 6 else 'aA.', amb=amb, inv=inv))
    c.append(dict(items=[2, 1, 2], n=1, alpha='aA*', amb=True, inv=False))
    return c


HARNESSES = [
    Harness('shipped', h_shipped, c_shipped, bounds='all shipped lists; every single character of theirs, and pairs (thorough: triples) over the most frequent letters and punctuation'),
    Harness('any', h_any, c_any, bounds='all lists of 1..3 free items of 1..2 (thorough 3) characters and all abbreviations of 1..2 characters over letters of both cases and punctuation'),
    Harness('full', h_full, lambda t: [dict(list=l, part=[k, k + 12], amb=bool(AMB.get(l, 1))) for l in LISTS for k in (0, 12, 24) if k == 0 or l in ('colours', 'systems', 'equilibrium', 'keys', 'symbols') and k < {'colours': 36, 'systems': 24}.get(l, 24)], bounds='every shipped name in three notations'),
]
ASSUMPTIONS = []

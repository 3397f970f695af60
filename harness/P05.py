"""P05: decoding diameter limits."""
from symx.check import Harness
from harness.util import *


def make(I):
    occ, b = I.case['occ'], I.case['bins']
    k = len(occ)
    if b == 'sym':
        lim = [I.log('l0', 1e-3, 100.)]
        for i in range(k):
            x = I.log(f'l{i + 1}', 1e-3, 1e4)
            I.assume(x >= lim[-1] * 1.05)
            I.assume(x <= lim[-1] * 3.)
            lim.append(x)
        b = 'root-2'
    else:
        lim = series(b, I.case['start'], k + 1)
    n = [2. if o else 0. for o in occ]
    cc = binned_count(I, lim[:-1], lim[-1], n, n, 1., b)
    return cc, lim, b, [i for i, o in enumerate(occ) if o]


def limit_text(I, name, x):
    """the limit as the command line gives it (text) or as the program itself does (number)"""
    f = I.case.get('form', 'text')
    return I.token(x) if f == 'text' else x


def h_numbers(I):
    cc, lim, b, ne = make(I)
    snap = I.case['snap']
    lo, hi = I.log('lo', 1e-4, 1e4), I.log('hi', 1e-4, 1e4)
    I.assume(hi >= lo) if not I.case.get('reversed') else I.assume(hi < lo)
    arg = [limit_text(I, 'lo', lo), limit_text(I, 'hi', hi)]
    got = cc.decode_range(arg, b, snap)
    I.check(len(got) == 2, 'two limits')
    if I.case.get('reversed'):
        hi = lo
    if not snap:
        I.check(I.all([near(I, got[0], lo, 1e-12), near(I, got[1], hi, 1e-12)]), 'numeric limits used as given')
        return
    t = 1 + 2e-6
    a, z = got
    I.check(I.any([near(I, a, l, 1e-9) for l in lim[:-1]]), 'lower limit snapped to a bin limit')
    I.check(I.any([a <= lo * t, near(I, a, lim[0], 1e-9)]), 'lower limit moves outward (or to the first limit)')
    for i in range(len(lim) - 1):
        I.check(I.imp(near(I, a, lim[i], 1e-9), I.any([i == len(lim) - 2, lo <= lim[i + 1] * t])), 'lower limit moves by less than one bin')
        I.check(I.imp(lo == lim[i], near(I, a, lim[i], 1e-9)), 'lower limit on a bin limit stays put')
    beyond = hi > lim[-1]
    I.check(I.imp(beyond, near(I, z, hi, 1e-9)), 'upper limit beyond the data is kept')
    I.check(I.imp(I.nt(beyond), I.all([z * t >= hi, z <= lim[-1] * (1 + 1e-9)])), 'upper limit moves outward')
    I.check(I.imp(hi <= lim[-1] * (1 - 3e-4), I.any([near(I, z, l, 1e-9) for l in lim[1:]])), 'upper limit snapped to a bin limit')
    for i in range(1, len(lim)):
        I.check(I.imp(I.all([near(I, z, lim[i], 1e-9), I.nt(beyond)]), I.any([i == 1, hi * t >= lim[i - 1]])), 'upper limit moves by less than one bin')
        I.check(I.imp(hi == lim[i], near(I, z, lim[i], 1e-9)), 'upper limit on a bin limit stays put')
    I.reach('snapped')


def h_special(I):
    """zero, infinity and binning none"""
    cc, lim, b, ne = make(I)
    snap = I.choice('snap', [0, 1])
    lo, hi = I.choice('lo', ['0', '.0']), I.choice('hi', ['inf', 'Inf'])
    got = cc.decode_range([lo, hi], b, snap)
    I.check(got[0] == 0, 'zero stays zero')
    I.check(got[1] == math.inf, 'infinity stays infinity')
    x = I.log('x', 1e-4, 1e4)
    cc = new_count(I, [3., 1., 2.], [1., 1., 1.], 1.)
    got = cc.decode_range([I.token(x), 'inf'], 'none', snap)
    I.close(got[0], x, 'no binning: limit used as given', rtol=1e-9)
    got = cc.decode_range(['b1', 'b-1'], 'none', snap)
    I.check(I.all([near(I, got[0], 1., 1e-9), near(I, got[1], 3., 1e-9)]), 'no binning: references name craters')


def h_refs(I):
    cc, lim, b, ne = make(I)
    m = len(ne)
    snap = I.choice('snap', [0, 1])
    r = [I.int('r0', -m, m), I.int('r1', -m - 1, m + 1)]
    for x in r:
        I.assume(I.any([x > 0, x < 0]))
    pos = [I.ite(x > m, m - 1, I.ite(x > 0, x - 1, I.ite(x < -m, 0, x + m))) for x in r]
    I.assume(pos[0] <= pos[1])
    k = [int(x) for x in r]
    arg = [f'b{x}' if not I.case.get('plus') or x < 0 else f'b+{x}' for x in k]
    i, j = [ne[min(x, m) - 1] if x > 0 else ne[max(x, -m)] for x in k]
    if I.case.get('mixed'):
        x = I.log('x', 1e-4, 1e4)
        I.assume(x <= lim[i])
        arg[0] = I.token(x)
        got = cc.decode_range(arg, b, 0)
        I.close(got[0], x, 'numeric limit with a reference', rtol=1e-9)
    else:
        got = cc.decode_range(arg, b, snap)
        I.check(near(I, got[0], lim[i], 1e-9), 'lower reference names the lower limit of its bin')
    I.check(near(I, got[1], lim[j + 1], 1e-9), 'upper reference names the upper limit of its bin')
    I.reach('refs')


OCC = [[1, 1, 1], [1, 0, 1, 1], [0, 1, 1, 0, 1]]


def cases(tier):
    q = tier == 'quick'
    for occ in OCC[:2] if q else OCC:
        for bins, start in (('sym', 0), ('root-2', 1.), ('10/decade', .3)) if q else (('sym', 0), ('root-2', 1.), ('x2', .01), ('10/decade', .3), ('20/decade', 80.), ('4th root-2', 2.), ('pseudo-log', .8)):
            for snap in (0, 1):
                for form in ('text', 'number') if snap else ('text',):
                    yield dict(occ=occ, bins=bins, start=start, snap=snap, form=form)
            yield dict(occ=occ, bins=bins, start=start, snap=1, reversed=True)


def cases_refs(tier):
    for occ in OCC + [[0, 1], [1], [1, 0, 1, 0]]:
        for bins in ('sym', 'root-2'):
            yield dict(occ=occ, bins=bins, start=.5)
            if bins != 'sym' or tier != 'quick':
                yield dict(occ=occ, bins=bins, start=.5, plus=True)
                yield dict(occ=occ, bins=bins, start=.5, mixed=True)


HARNESSES = [
    Harness('numbers', h_numbers, cases, bounds='3..5 bins (limits symbolic or of a shipped series), limits 1e-4..1e4 km anywhere (also exactly on bin limits), text or number, snapping on/off, reversed pairs'),
    Harness('special', h_special, lambda t: [dict(occ=[1, 1], bins='root-2', start=1.)], bounds='0, infinity, binning none'),
    Harness('refs', h_refs, cases_refs, bounds='all references from one below -n to one above n over six occupancy patterns, mixed with a number'),
]

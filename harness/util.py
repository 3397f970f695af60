"""helpers shared by the harnesses (both modes)"""
import math

BPD = {'x2': 1. / math.log10(2.), 'root-2': 2. / math.log10(2.), '4th root-2': 4. / math.log10(2.), '10/decade': 10., '20/decade': 20.}
PSEUDO = [1., 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2., 2.5, 3., 3.5, 4., 4.5, 5., 6., 7., 8., 9.]
BINNINGS = ['pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2', 'none']
PRESENTATIONS = ['cumulative', 'differential', 'R-plot', 'Hartmann', 'incremental']


def isint(I, x, eps=1e-6):
    """x is a whole number"""
    if not I.sym:
        return abs(x - round(x)) < eps
    if not hasattr(x, 'floor'):
        return abs(float(x) - round(float(x))) < eps
    return abs_le(I, (x + .5).floor() - x, eps)


def abs_le(I, x, t):
    return I.all([x <= t, x >= -t])


def near(I, x, y, rtol=1e-9):
    """relative closeness of positive numbers, as a condition"""
    return I.all([x <= y * (1 + rtol), x >= y * (1 - rtol)])


def iszero(I, x, eps=1e-9):
    return abs_le(I, x, eps)


def new_count(I, d, f, area, name='set', filename='set.diam'):
    """a crater count as the readers leave it"""
    cc = I.cst.Cratercount()
    cc.filename, cc.name = filename, name
    cc.diam, cc.fraction, cc.area = tuple(d), tuple(f), area
    cc.prebinned = 0
    return cc


def binned_count(I, d_min, d_last, n, n_event, area, binning='root-2', name='set', filename='set.stat'):
    """a crater count with given bins: limits d_min[0..], upper limit of the last one, weighted and event counts"""
    np = I.np
    k = len(n)
    lim = list(d_min) + [d_last]
    cc = I.cst.Cratercount()
    cc.filename, cc.name, cc.area = filename, name, area
    cc.diam = None
    arr = lambda v: np.array(list(v))
    cum = lambda v: arr([sum_(v[i:]) for i in range(k)])
    cc.binned = {'d_min': arr(lim[:-1]), 'd_max': arr(lim[1:]), 'd_mean': np.sqrt(arr(lim[:-1]) * arr(lim[1:])),
                 'bin_width': arr(lim[1:]) - arr(lim[:-1]), 'n': arr(n), 'n_event': arr(n_event), 'ncum': cum(n), 'ncum_event': cum(n_event)}
    cc.binning = binning
    cc.prebinned = 1
    return cc


def sum_(v):
    r = 0
    for e in v:
        r = r + e
    return r


R2 = 2 ** .5


def series(b, start, n):
    """n consecutive limits of a binning, from the given (approximate) start"""
    if b == 'pseudo-log':
        s = [a * 10. ** e for e in range(-8, 6) for a in PSEUDO]
    else:
        s = [10 ** (k / BPD[b]) for k in range(int(-8 * BPD[b]), int(6 * BPD[b]))]
    i = min(range(len(s)), key=lambda i: abs(math.log(s[i] / start)))
    return s[i:i + n]

"""P28: an exported .stat table reads back as the same count."""
import os
from symx.check import Harness
from harness.util import binned_count, new_count, near, series, BINNINGS

E3, G5, G4 = 5.01e-4, 5.01e-5, 5.01e-4      # half a unit of the last printed digit, relative to the smallest mantissa


def columns(I, p):
    t = I.readback(p)
    rows = []
    for line in t.split('\n'):
        if len(line) and not bool(line[0] == '#'):
            rows.append([I.tonum(x) for x in line.split()])
    return rows


def roundtrip(I, cc, binning, b, label):
    """b: bins the count has, as a list of (d_min, d_max, n, n_event) in increasing order"""
    I.opaque_numbers()
    I.capture_writes()
    p = os.path.join(I.tmp, 'out.stat')
    area = cc.area
    if binning == 'pseudo-log' and I.case.get('dflt', 1):
        cc.WriteStatFile(p)
    else:
        cc.WriteStatFile(p, binning)
    full = [(lo, hi, n, e, sum_from(b, i, 2), sum_from(b, i, 3)) for i, (lo, hi, n, e) in enumerate(b)]
    rows_want = [r for r in full if bool(r[2] > 0)]
    # printed columns
    rows = columns(I, p)
    I.check(len(rows) == len(rows_want), label + ': one line per non-empty bin')
    I.check(all(len(r) == 11 for r in rows), label + ': eleven columns')
    np = I.np
    for r, (lo, hi, n, ev, nc, nce) in zip(rows, rows_want):
        I.check(near(I, r[0], lo, G5), 'lower limit')
        I.check(near(I, r[1], n, G5), 'count')
        I.check(near(I, r[2] * area, n, E3), 'count density')
        I.check(near(I, r[3] * area * np.sqrt(n), n, E3), 'error of the count density')
        I.check(near(I, r[4], nc, G5), 'cumulative count')
        I.check(near(I, r[5] * area, nc, E3), 'cumulative density')
        I.check(near(I, r[6] * area * np.sqrt(nc), nc, E3), 'error of the cumulative density')
        I.check(near(I, r[7] * r[7], lo * hi, 2.01 * G4), 'mean diameter')
        I.check(near(I, r[8] * area * (hi - lo), n, E3), 'differential density')
        I.check(near(I, r[9] * area * (hi - lo) * np.sqrt(ev), n, E3), 'error of the differential density')
        I.check(near(I, r[10], ev, G5), 'number of events')
    seven = I.case.get('seven')
    if I.case.get('edit') or seven:                         # comment and blank lines added, or the seven columns of older files
        t, k = '', 0
        for line in I.readback(p).split('\n'):
            if len(line) and not bool(line[0] == '#') and seven:
                x = line.split()
                line = x[0]
                for e in x[1:7]:
                    line = line + '  ' + e
            t = t + line + '\n' + (['', '\n', '  \t\n', '# 1 2 3\n', '   # x\n \n'][k % 5] if I.case.get('edit') else '')
            k += 1
        I.writefile('out.stat', t)
    # read back
    c2 = I.cst.Cratercount(p)
    I.check(bool(c2.prebinned), 'read as a binned count')
    g = c2.binned
    I.check(len(g['d_min']) == len(rows_want) == len(g['n']) == len(g['n_event']) == len(g['ncum']) == len(g['d_max']), 'same non-empty bins')
    for i, (lo, hi, n, ev, nc, nce) in enumerate(rows_want):
        I.check(near(I, g['d_min'][i], lo, G5), 'lower limit read back')
        I.check(near(I, g['n'][i], n, G5), 'count read back')
        I.check(near(I, g['n_event'][i], ev if not seven else n, G5), 'events read back')
        I.check(near(I, g['ncum'][i], nc, G5), 'cumulative count read back')
    I.check(near(I, c2.area, area, E3 + 1.1 * G5), 'area read back')
    if len(rows_want) == 1:
        I.check(near(I, g['d_max'][0], rows_want[0][1], 2.01 * G4 + 1.1 * G5), 'upper limit of a single bin')


def sum_from(b, i, k):
    s = b[i][k]
    for x in b[i + 1:]:
        s = s + x[k]
    return s


def h_bins(I):
    """given bins, with empty ones between"""
    c = I.case
    occ = c['occ']
    lim = series(c['binning'], c['start'], len(occ) + 1)
    n, e = [], []
    for i, o in enumerate(occ):
        if o == 0:
            n.append(I.const(0.) if hasattr(I, 'const') else 0.)
            e.append(0)
        else:
            e.append(I.int(f'e{i}', 1, c.get('emax', 90000)))
            n.append(I.real(f'n{i}', 0.001, 90000))
            I.assume(n[i] <= e[i])
    area = I.real('area', 1e-3, 1e8)
    cc = binned_count(I, lim[:-1], lim[-1], n, e, area, binning=c['binning'], filename='x/set.diam')
    cc.prebinned = c['pre']
    roundtrip(I, cc, c['binning'], list(zip(lim[:-1], lim[1:], n, e)), 'given bins')
    I.reach('bins')


def h_craters(I):
    """from crater lists"""
    c = I.case
    d, f = [], []
    for i, (lo, hi) in enumerate(c['bins']):
        d.append(I.log(f'd{i}', lo * 1.0001, hi * .9999))
        f.append(I.real(f'f{i}', 0.01, 1) if c.get('frac', 1) else 1.)
    area = I.real('area', 0.1, 1e6)
    cc = new_count(I, d[::-1], f[::-1], area)
    b, bins = c['binning'], []
    lim = series(b, c['bins'][0][0], c['nb'] + 1)
    for lo, hi in zip(lim[:-1], lim[1:]):
        k = [i for i, (a, z) in enumerate(c['bins']) if abs(a - lo) < 1e-6 * lo]
        n = 0.
        for i in k:
            n = n + f[i]
        bins.append((lo, hi, n, len(k)))
    if c.get('stale'):
        cc.apply_binning(c['stale'])
    roundtrip(I, cc, b, bins, 'crater list')
    I.reach('craters')


def c_bins(t):
    c = []
    OCC = [(1,), (1, 1), (1, 0, 1), (0, 1, 0), (1, 1, 0, 1)] + ([] if t == 'quick' else [(1, 0, 0, 1, 1), (1, 1, 1, 1)])
    B = [b for b in BINNINGS if b != 'none']
    for i, occ in enumerate(OCC):
        for j, b in enumerate(B):
            if t != 'quick' or (i + j) % 2 == 0 or len(occ) < 3:
                c.append(dict(occ=occ, binning=b, start=[0.003, 0.1, 1, 7, 90, 400][(i + j) % 6], pre=(i + j) % 2))
    for i, occ in enumerate(OCC[1:4]):
        c.append(dict(occ=occ, binning=B[i], start=1, pre=1, edit=1))
        if sum(occ) > 1:
            c.append(dict(occ=occ, binning=B[i + 1], start=.1, pre=0, seven=1, edit=i > 1))
    return c


def c_craters(t):
    c = []
    for b in ('pseudo-log', 'root-2', 'x2', '10/decade'):
        for start in ((0.02, 1, 50) if t != 'quick' else (1,)):
            l = series(b, start, 5)
            pr = list(zip(l[:-1], l[1:]))
            for idx in ([0], [0, 0], [0, 1], [0, 2], [0, 1, 1], [0, 0, 3]):
                c.append(dict(bins=[pr[i] for i in idx], nb=max(idx) + 1, binning=b))
    l = series('pseudo-log', 2, 3)
    c += [dict(bins=[(l[0], l[1]), (l[1], l[2])], nb=2, binning='pseudo-log', stale='root-2'), dict(bins=[(l[0], l[1])], nb=1, binning='pseudo-log', frac=0, stale='none')]
    return c


HARNESSES = [
    Harness('bins', h_bins, c_bins, bounds='comment and blank lines added, seven columns of older files; 1..4 (thorough 5) bins of every style, empty ones in between, weighted counts 0.001..90000, events 1..90000, areas 1e-3..1e8 km2'),
    Harness('craters', h_craters, c_craters, bounds='lists of 1..3 craters anywhere in their bins with fractions 0.01..1'),
]
ASSUMPTIONS = ['a printed number reads back within half a unit of its last digit; numbers are separated where their column is wide enough for every value']

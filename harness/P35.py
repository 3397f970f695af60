"""P35: a spatial count written as .scc reads back with the same craters, area and boundary."""
import itertools
import os
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.geo import Sph, Multi, box
from harness.util import near

G6, G7, G3 = 5.01e-6, 5.01e-7, 5.01e-3


def quad(I, tag, x0, x1, y0, y1, cw, free):
    """a closed three- to five-sided ring with free corners near the given box"""
    e = (x1 - x0) / 24          # the intervals of the corners do not overlap, so that their order is fixed
    h = (y1 - y0) / 24
    cor = [(x0, y0), (x1, y0 + 3 * h), (x1 - 3 * e, y1), (x0 + 3 * e, y1 - 3 * h)]
    if cw:
        cor = cor[::-1]
    sides = I.case.get('sides', 4)
    cor = cor[:3] if sides == 3 else cor + [(cor[-1][0] * .9 + cor[0][0] * .1, (cor[-1][1] + cor[0][1]) / 2)] if sides == 5 and not cw else cor
    p = [(I.real(f'{tag}x{i}', x - e, x + e) if free else x, I.real(f'{tag}y{i}', y - h, y + h) if free == 2 else y) for i, (x, y) in enumerate(cor)]
    return p + [p[0]]


def build(I):
    """the shapes of an area shapefile: outer rings clockwise, holes counter-clockwise"""
    c = I.case
    shapes, units = [], []
    k = 0
    for s, parts in enumerate(c['shapes']):
        pts, starts, out = [], [], []
        for j, nh in enumerate(parts):
            x = -150 + 45 * k
            k += 1
            rings = [quad(I, f'e{s}{j}', x, x + 40, -20, 20, True, c['free'])]
            rings += [quad(I, f'h{s}{j}{q}', x + 8 + 12 * q, x + 14 + 12 * q, -3, 3, False, c['free'] if q == 0 else 0) for q in range(nh)]
            out.append(rings)
            for r in rings:
                starts.append(len(pts))
                pts += r
        shapes.append(Any(points=pts, parts=starts))
        units += out
    return shapes, units


def count(I):
    c = I.case
    S = I.cst.Spatialcount
    sc = S.__new__(S)
    n = c['n']
    sc.filename, sc.name = '/x/set_CRATER.shp', 'set'
    sc.crater_file, sc.area_file, sc.tc, sc.ta = '/x/set_CRATER.shp', '/x/set_AREA.shp', 1e9, 1.1e9
    sc.planetary_radius = I.real('R', 1, 9000)
    sc.area, sc.perimeter = I.real('A', 1e-3, 1e9), I.real('P', 1e-2, 1e6)
    sc.diam = [I.real(f'd{i}', 0.001, 900) for i in range(n)]
    sc.fraction = [I.real(f'f{i}', 0.001, 1) for i in range(n)]
    sc.lon = [I.real(f'lon{i}', -180, 180) for i in range(n)]
    sc.lat = [I.real(f'lat{i}', -90, 90) for i in range(n)]
    for i in range(n):
        for j in range(i):
            I.assume(I.any([sc.diam[i] > sc.diam[j] * 1.00001, sc.diam[j] > sc.diam[i] * 1.00001]))
    sc.sa, units = build(I)
    return sc, units


def eq(a, b):
    return lambda I: I.all([a - b <= 1e-9, b - a <= 1e-9])


def same(I, got, want):
    return I.all([I.all([x - y <= 1e-9, y - x <= 1e-9]) for p, q in zip(got, want) for x, y in zip(p, q)])


def craters(I, sc, diam, frac, lon=None, lat=None):
    n = len(sc.diam)
    I.check(len(diam) == len(frac) == n, 'number of craters')
    ok = []
    for pm in itertools.permutations(range(n)):
        ok.append(I.all([I.all([near(I, diam[i], sc.diam[j], G7), near(I, frac[i], sc.fraction[j], G3)] +
                               ([] if lon is None else [lon[i] - sc.lon[j] <= 1e-9, sc.lon[j] - lon[i] <= 1e-9, lat[i] - sc.lat[j] <= 1e-9, sc.lat[j] - lat[i] <= 1e-9])) for i, j in enumerate(pm)]))
    I.check(I.any(ok), 'diameters, fractions and positions of the craters')


def write(I, sc):
    I.opaque_numbers()
    I.capture_writes()
    p = os.path.join(I.tmp, 'out.scc')
    sc.writeSCCfile(p)
    I.check(I.exists(p), 'written')
    return p


def h_table(I):
    """the written tables"""
    sc, units = count(I)
    p = write(I, sc)
    s = I.gm.read_textstructure(p)
    rings = [(r, 'ext' if i == 0 else 'int') for u in units for i, r in enumerate(u)]
    b = s['unit_boundary']
    total = 0
    for r, _ in rings:
        total += len(r)
    I.check(len(b['lon']) == len(b['lat']) == len(b['tag']) == len(b['sub_area']) == total, 'every vertex')
    k = 0
    ids = []
    for r, tag in rings:
        rows = range(k, k + len(r))
        k += len(r)
        got = [(I.tonum(b['lon'][i]), I.tonum(b['lat'][i])) for i in rows]
        I.check(same(I, got, r), 'vertices of the ring')
        I.check(all(b['tag'][i] == tag for i in rows), 'outer rings and holes tagged')
        I.check(all(b['sub_area'][i] == b['sub_area'][rows[0]] for i in rows), 'one number per ring')
        ids.append(int(b['sub_area'][rows[0]]))
    I.check(len(set(ids)) == len(ids), 'rings have different numbers')
    I.check([int(v) for v in b['vertex']] == list(range(1, total + 1)), 'vertices numbered')
    c = s['crater']
    craters(I, sc, [I.tonum(x) for x in c['diam']], [I.tonum(x) for x in c['fraction']], [I.tonum(x) for x in c['lon']], [I.tonum(x) for x in c['lat']])
    I.reach('table')


def h_plain(I):
    """read back as a plain crater count"""
    sc, units = count(I)
    p = write(I, sc)
    cc = I.cst.Cratercount(p)
    craters(I, sc, cc.diam, cc.fraction)
    I.check(near(I, cc.area, sc.area, G6), 'area')
    I.check(near(I, cc.perimeter, sc.perimeter, G6), 'perimeter')
    I.check(not cc.buffered and not cc.prebinned, 'kind of count')
    I.reach('plain')


def h_spatial(I):
    """read back as a spatial count"""
    sc, units = count(I)
    p = write(I, sc)
    A, P = I.real('A2', 1, 1e8), I.real('P2', 1, 1e6)
    seen = []

    def area_of(q, r):
        seen.append((q, r))
        return A

    def perimeter_of(q, r):
        seen.append((q, r))
        return P

    m = I.mod('craterstats.Spatialcount')
    with Patch(m, sph=Sph(I, area_of=area_of, perimeter_of=perimeter_of)):
        with Patch(m.Spatialcount, find_enclosing_polygon=lambda s: None):
            s2 = I.cst.Spatialcount(p)
    I.check(near(I, s2.planetary_radius, sc.planetary_radius, G6), 'planetary radius')
    craters(I, sc, s2.diam, s2.fraction, s2.lon, s2.lat)
    I.check(isinstance(s2.polygon, Multi) and len(s2.polygon.polys) == len(units), 'one polygon per part')
    ok = []
    for q, u in zip(s2.polygon.polys, units):
        I.check(len(q.holes) == len(u) - 1, 'holes of the part')
        for got, want in zip([q.shell] + q.holes, u):
            I.check(len(got) == len(want), 'vertices of the ring')
            I.check(same(I, got, want), 'ring')
    for q, r in seen:
        I.check(q is s2.polygon and bool(r == s2.planetary_radius), 'area of the whole unit at the planetary radius')
    I.check(s2.area == A and s2.perimeter == P, 'area of the unit')
    I.reach('spatial')


def c_rings(t):
    c = []
    SH = [[[0]], [[1]], [[2]], [[0, 0]], [[0], [0]], [[1, 0]], [[0, 1]], [[1], [0]], [[1, 1], [0]], [[0, 0], [1]]]
    for i, s in enumerate(SH):
        for n in (1, 2) if t == 'quick' else (1, 2, 3):
            c.append(dict(shapes=s, n=n, free=1 if t == 'quick' else 1 + (i + n) % 2))
    for s in SH[1:6]:
        c.append(dict(shapes=s, n=1, free=1, sides=3))
    c.append(dict(shapes=SH[1], n=1, free=1, sides=5))
    return c


def c_plain(t):
    return [dict(shapes=[[0]], n=n, free=0) for n in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4))]


HARNESSES = [
    Harness('table', h_table, c_rings, bounds='1..2 (thorough 3) craters, 1..3 parts in 1..2 shapes with 0..2 holes each, corners free within a twelfth of the box'),
    Harness('plain', h_plain, c_plain, bounds='1..3 (thorough 4) craters with all diameters, fractions, areas and perimeters'),
    Harness('spatial', h_spatial, c_rings, bounds='as table'),
]
ASSUMPTIONS = ['printed numbers read back within half a unit of the last digit', 'the geometry libraries are stand-ins']

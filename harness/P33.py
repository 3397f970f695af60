"""P33: boundary craters get the linear fraction of their overlap; rings and tables stay intact."""
import math
import os
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.geo import Sph, Poly, Multi, same_points

NG = 360      # cells of the reference table


def segment(l):
    """area fraction of a circle cut by a chord at the fraction l of its diameter"""
    c = 1 - 2 * l
    return (math.acos(c) - c * math.sqrt(max(0., 1 - c * c))) / math.pi


GRID = [i / NG for i in range(NG + 1)]
AREA = [segment(l) for l in GRID]


def h_transform(I):
    c = I.case
    t = I.cst.fractional_crater_transform()
    if 'at' in c:
        r = t.af2lf(c['at'])
        I.check(abs(float(r) - c['at']) < 1e-9, 'zero, half and one are kept')
        I.reach('fixed')
        return
    i0, i1 = c['cells']
    a = I.real('area_fraction', AREA[i0], AREA[i1])
    r = t.af2lf(a)
    tol = .006
    I.check(I.all([I.imp(I.all([a >= AREA[i], a <= AREA[i + 1]]), I.all([r >= GRID[i] - tol, r <= GRID[i + 1] + tol])) for i in range(i0, i1)]),
            'linear fraction of the circle segment')
    I.check(I.all([r >= 0, r <= 1]), 'a fraction')
    b = I.real('larger', AREA[i0], AREA[i1])
    I.assume(b > a + 1e-6)
    r2 = t.af2lf(b)
    I.check(r2 > r, 'increasing')
    I.reach('transform')


def eq15(I):
    return lambda a, b: I.all([a - b <= 1e-12, b - a <= 1e-12])


def ring(I, tag, n):
    """vertices with free coordinates in separate intervals (so that no two coincide)"""
    k = int(tag[1:]) if tag[1:].isdigit() else 0
    return [(I.real(f'{tag}x{i}', -180 + 40 * k + 9 * i, -180 + 40 * k + 9 * i + 8), I.real(f'{tag}y{i}', -90 + 20 * k + 5 * (i * i % 7), -90 + 20 * k + 5 * (i * i % 7) + 4)) for i in range(n)]


def h_scc(I):
    """spatial .scc files"""
    c = I.case
    I.opaque_numbers()
    np, n = I.np, c['n']
    R = I.real('R', 1, 8000)
    cr = [(I.real(f'd{i}', 0.01, 500), I.real(f'f{i}', 0.01, 1), I.real(f'lon{i}', -180, 180), I.real(f'lat{i}', -90, 90)) for i in range(n)]
    T = I.tostr
    rings = [(ident, tag, ring(I, f'r{k}', nv)) for k, (ident, tag, nv) in enumerate(c['rings'])]
    t = '# spatial\n' + c.get('key', 'a_axis_radius') + ' = ' + T(R) + ' <km>\n'
    bt, k = '', 0
    cols = c.get('cols', ['vertex', 'sub_area', 'tag', 'lon', 'lat'])
    for ident, tag, pts in rings:
        pts = pts + [pts[0]] if c.get('closed', 1) else pts
        for x, y in pts:
            k += 1
            v = dict(vertex=str(k), sub_area=str(ident), tag=tag, lon=T(x), lat=T(y))
            line = ''
            for q in cols:
                line = line + ('\t' if q != cols[0] else '') + v[q]
            bt = bt + line + '\n'
    t = t + 'unit_boundary = {' + ', '.join(cols) + '\n' + bt + '}\n'
    ccols = ['diam', 'fraction', 'lon', 'lat'] if c.get('frac', 1) else ['diam', 'lon', 'lat', 'topo_scale_factor']
    if c.get('rev'):
        ccols = ccols[::-1]
    t = t + 'crater = {' + ', '.join(ccols) + '\n'
    for d, f, x, y in cr:
        v = dict(diam=T(d), fraction=T(f), lon=T(x), lat=T(y), topo_scale_factor='1')
        line = ''
        for q in ccols:
            line = line + ('\t' if q != ccols[0] else '') + v[q]
        t = t + line + '\n'
    t = t + '}\n'
    p = I.writefile('x/set.scc', t)
    # containment: any relation between different rings
    K = len(rings)
    ins = {(a, b): I.flag(f'in{a}_{b}') for a in range(K) for b in range(K) if a != b and rings[a][1] == 'int' or a != b and c.get('any')}
    whole = lambda pts: pts + [pts[0]] if c.get('closed', 1) else pts

    def which(p):
        for k2, (_, _, pts) in enumerate(rings):
            if p.shell[0][0] is pts[0][0] or bool(p.shell[0][0] == pts[0][0]) and bool(p.shell[0][1] == pts[0][1]):
                return k2
        raise AssertionError('unknown ring')

    def inside(a, b):
        ka, kb = which(a), which(b)
        return True if ka == kb else bool(ins.get((ka, kb), False))

    A, P = I.real('A', 1, 1e8), I.real('P', 1, 1e6)
    radii, polys = [], []

    def area_of(p, radius):
        radii.append(radius)
        polys.append(p)
        return A

    def perimeter_of(p, radius):
        radii.append(radius)
        polys.append(p)
        return P

    for i in range(K):
        for j in range(i):
            if len(rings[i][2]) and len(rings[j][2]):
                I.assume(I.nt(rings[i][2][0][0] == rings[j][2][0][0]))
    for _, _, pts in rings:
        for a, b in zip(pts, pts[1:] + pts[:1]):
            I.assume(I.any([I.nt(a[0] == b[0]), I.nt(a[1] == b[1])]))
    sph = Sph(I, inside=inside, area_of=area_of, perimeter_of=perimeter_of)
    m = I.mod('craterstats.Spatialcount')
    with Patch(m, sph=sph):
        with Patch(m.Spatialcount, find_enclosing_polygon=lambda s: None):
            s = I.cst.Spatialcount(p)
    I.check(s.planetary_radius == R, 'planetary radius')
    I.check(s.area == A and s.perimeter == P, 'area and perimeter of the unit')
    for r in radii:
        I.check(r == R, 'area at the planetary radius')
    # craters
    I.check(len(s.diam) == n == len(s.fraction) == len(s.lon) == len(s.lat), 'number of craters')
    got = list(zip(s.diam, s.fraction, s.lon, s.lat))
    want = [(d, f if c.get('frac', 1) else 1., x, y) for d, f, x, y in cr]
    import itertools
    I.check(I.any([I.all([I.all([g[k3] == want[j][k3] for k3 in range(4)]) for g, j in zip(got, pm)]) for pm in itertools.permutations(range(n))]),
            'diameter, fraction and position stay together')
    for a, b in zip(s.diam, list(s.diam)[1:]):
        I.check(a <= b, 'in order of diameter')
    # rings
    mp = s.polygon
    I.check(isinstance(mp, Multi) and all(q is mp for q in polys), 'area of the whole unit')
    ext = [k2 for k2, r in enumerate(rings) if r[1] == 'ext']
    I.check(len(mp.polys) == len(ext), 'one polygon per outer ring')
    order = sorted(ext, key=lambda k2: rings[k2][0])
    for q, k2 in zip(mp.polys, order):
        same_points(I, q.shell, whole(rings[k2][2]), 'outer ring')
        holes = [k3 for k3 in sorted(range(K), key=lambda z: rings[z][0]) if rings[k3][1] == 'int' and bool(ins[(k3, k2)])]
        I.check(len(q.holes) == len(holes), 'number of holes')
        for h, k3 in zip(q.holes, holes):
            same_points(I, h, whole(rings[k3][2]), 'hole')
    I.reach('scc')


class Shape:
    """a shape of a file: its interface to other programs is made from its present points, as in pyshp"""

    def __init__(self, points, parts=None):
        self.points, self.orig, self.layout = points, list(points), parts

    @property
    def __geo_interface__(self):
        it = iter(self.points)
        take = lambda r: [next(it) for _ in r]
        return dict(parts=[(take(sh), [take(h) for h in hs]) for sh, hs in self.layout])


def h_shp(I):
    """shapefile pairs"""
    c = I.case
    n = c['n']
    areas = c['areas']
    R = c['R']
    craters = [Shape(ring(I, f'c{i}', 3)) for i in range(n)]
    cover = [I.flag(f'covered{i}') for i in range(n)]
    part = [I.real(f'part{i}', 0, 1) if not c.get('outside') == i else 0. for i in range(n)]
    cen = [(I.real(f'lon{i}', -180, 180), I.real(f'lat{i}', -90, 90)) for i in range(n)]
    A, P = I.real('A', 1, 1e8), I.real('P', 1, 1e6)
    unit = [[(ring(I, f'u{k}_{j}', 3), [ring(I, f'h{k}_{j}_{q}', 3) for q in range(nh)]) for j, nh in enumerate(parts)] for k, parts in enumerate(c['unit'])]
    files = {}
    base = '/x/y/set'
    fc, fa = c.get('names', ('/x/y/set_CRATER.shp', '/x/y/set_AREA.shp'))
    unit_shapes = [Shape([v for sh, hs in parts for rr in [sh] + hs for v in rr], parts) for parts in unit]
    read = []

    class Reader:
        def __init__(self, f):
            read.append(f)
            I.check(f in (fc, fa), 'crater or area file')
            self.f = f

        def shapes(self):
            return [Shape(list(e.orig), e.layout) for e in (craters if self.f == fc else unit_shapes)]

    Ring = lambda pts: Any(coords=pts)

    def geometry(g):
        ps = [Any(geom_type='Polygon', exterior=Ring(sh), interiors=[Ring(h) for h in hs]) for sh, hs in g['parts']]
        return ps[0] if len(ps) == 1 and not c.get('multi') else Any(geom_type='MultiPolygon', geoms=ps)

    class Crs:
        def __init__(self, wkt):
            self.ellipsoid = Any(semi_major_metre=R * 1000. if wkt == 'CRATERS' or not c.get('differ') else R * 1001.)
            self.is_geographic = not c.get('projected')
            self.geodetic_crs = self if self.is_geographic else Any(is_geographic=True)

        from_wkt = classmethod(lambda cls, w: cls(w))

    back, keep = {}, []

    class Transformer:
        def __init__(self, a, b, always_xy=False, **k):
            I.check(always_xy, 'longitude first')
            I.check(not a.is_geographic and b.is_geographic, 'from the plane to the sphere')

        @classmethod
        def from_crs(cls, a, b, **k):
            return cls(a, b, **k)

        def transform(self, x, y, **k):
            if not hasattr(x, '__len__'):
                r = (lonlat((x, y)))
                back[id(r[0])] = x
                keep.append(r)
                return r
            r = [self.transform(a, b) for a, b in zip(x, y)]
            return [e[0] for e in r], [e[1] for e in r]

    def lonlat(p):
        return (p[0] * .5 + 10., p[1] * .25 - 5.) if c.get('projected') else p

    def find(p):
        a = p.shell[0][0]
        a = back.get(id(a), a)
        for i, s in enumerate(craters):
            if p.shell[0] is s.orig[0] or a is s.orig[0][0]:
                return i
        raise AssertionError('not a crater')

    radii = []

    def area_of(p, radius):
        radii.append(radius)
        if isinstance(p, Multi):
            return A
        if isinstance(p, tuple):
            return part[p[1]] * areas[p[1]]
        return areas[find(p)]

    def perimeter_of(p, radius):
        radii.append(radius)
        return P

    class S(Sph):
        def covered_by(self, a, b):
            return bool(cover[find(a)])

        def intersection(self, a, b):
            return ('cut', find(a if isinstance(a, Poly) else b))

        def centroid(self, a):
            return find(a)

        def get_x(self, i):
            return cen[i][0]

        def get_y(self, i):
            return cen[i][1]

    sph = S(I, area_of=area_of, perimeter_of=perimeter_of)
    m = I.mod('craterstats.Spatialcount')
    os_ = Any(path=Any(getmtime=lambda f: 5.))

    class Tr:
        def af2lf(self, a):
            return a * .5 + .25 if bool(a > 0) else a

    with Patch(m, sph=sph, shapefile=Any(Reader=Reader), prj=Any(CRS=Crs, Transformer=Transformer), shp=Any(geometry=Any(shape=geometry)), os=os_):
        with Patch(I.gm, read_textfile=lambda f, *a, **k: ['CRATERS' if 'CRATER' in f else 'AREAS'], file_exists=lambda f: not f.endswith('_ra.txt')):
            with Patch(I.cst, fractional_crater_transform=Tr):
                with Patch(m.Spatialcount, find_enclosing_polygon=lambda s: None):
                    try:
                        s = I.cst.Spatialcount(fc, *([fa] if 'names' in c else []))
                        err = None
                        cc = I.cst.Cratercount(fc, *([fa] if 'names' in c else []))
                    except ValueError as e:
                        err = e
    if c.get('differ'):
        I.check(err is not None, 'different planetary radii refused')
        I.reach('differ')
        return
    I.check(err is None, 'read')
    I.check(sorted(read) == sorted([fc, fa] * 2), 'crater and area file')
    # as a plain count
    I.check(len(cc.diam) == len(s.diam) == len(cc.fraction), 'craters of the count')
    I.check(I.all([I.all([a == b, e == f]) for a, b, e, f in zip(cc.diam, s.diam, cc.fraction, s.fraction)]), 'craters of the count')
    I.check(cc.area == A and cc.perimeter == P and not cc.prebinned, 'area and perimeter of the count')
    I.check(cc.name == s.name == c.get('named', 'set'), 'name without the tag of the file')
    I.check(abs(s.planetary_radius - R) < 1e-9 * R, 'planetary radius')
    for r in radii:
        I.check(abs(r - R) < 1e-9 * R, 'areas at the planetary radius')
    I.check(s.area == A and s.perimeter == P, 'area and perimeter of the unit')
    want = []
    for i in range(n):
        d = 2 * R * math.acos(1 - areas[i] / (2 * math.pi * R * R))
        if bool(cover[i]):
            f = 1.
        elif bool(part[i] > 0):
            f = part[i] * .5 + .25
        else:
            continue
        want.append((d, f, cen[i][0], cen[i][1]))
    I.check(len(s.diam) == len(want) == len(s.fraction) == len(s.lon) == len(s.lat), 'craters that overlap the unit')
    import itertools
    ok = []
    for pm in itertools.permutations(range(len(want))):
        ok.append(I.all([I.all([abs(s.diam[i] - want[j][0]) < 1e-6 * want[j][0], s.fraction[i] - want[j][1] < 1e-9, want[j][1] - s.fraction[i] < 1e-9, s.lon[i] == want[j][2], s.lat[i] == want[j][3]])
                         for i, j in enumerate(pm)]))
    I.check(I.any(ok), 'diameter, fraction and position stay together')
    mp = s.polygon
    flat = [x for parts in unit for x in parts]
    I.check(len(mp.polys) == len(flat), 'one polygon per part')
    for q, (sh, hs) in zip(mp.polys, flat):
        sh, hs = [lonlat(v) for v in sh], [[lonlat(v) for v in h] for h in hs]
        same_points(I, q.shell, sh, 'outer ring')
        I.check(len(q.holes) == len(hs), 'number of holes')
        for h, w in zip(q.holes, hs):
            same_points(I, h, w, 'hole')
    I.reach('shp')


def c_transform(t):
    step = 12 if t == 'quick' else 24
    return [dict(at=a) for a in (0., .5, 1.)] + [dict(cells=(i, min(i + step, NG))) for i in range(0, NG, step)]


def c_scc(t):
    c = []
    RG = [[(1, 'ext', 3)], [(1, 'ext', 3), (2, 'int', 3)], [(1, 'ext', 3), (2, 'int', 3), (3, 'ext', 3)], [(1, 'ext', 3), (2, 'ext', 3), (3, 'int', 3)], [(1, 'int', 3), (2, 'ext', 3)],
          [(3, 'ext', 3), (5, 'int', 3), (7, 'ext', 3)], [(1, 'ext', 4), (2, 'int', 3), (3, 'int', 3)], [(2, 'int', 3), (1, 'ext', 4)], [(0, 'ext', 3), (1, 'int', 3)],
          [(1, 'ext', 3), (10, 'int', 3), (2, 'ext', 3)], [(1, 'ext', 3), (2, 'int', 3), (3, 'ext', 3), (4, 'int', 3)]]
    for i, r in enumerate(RG):
        c.append(dict(n=1 + i % 2, rings=r, any=len(r) <= 3))
        c.append(dict(n=1, rings=r, any=len(r) <= 2, frac=i % 2, closed=0))
    c += [dict(n=3, rings=RG[0]), dict(n=2, rings=RG[0], rev=1), dict(n=2, rings=RG[0], frac=0), dict(n=2, rings=RG[1], cols=['lon', 'lat', 'tag', 'sub_area', 'vertex'], key='a-axis radius'),
          dict(n=1, rings=RG[0], key='a_axis radius'), dict(n=1, rings=RG[0], key='oct_a_axis_radius')]
    return c


def c_shp(t):
    c = []
    for n in (1, 2, 3):
        for unit in ([[0]], [[1]], [[0, 0]], [[0, 2], [1]], [[0], [0]]):
            c.append(dict(n=n, areas=[[3., 700., 20000.][(i + n) % 3] for i in range(n)], R=[1737.4, 3396.19, 2.][(n + len(unit)) % 3 if n < 0 else (n + len(unit)) % 2], unit=unit))
    c += [dict(n=2, areas=[5., 2.], R=1737.4, unit=[[0]], outside=0), dict(n=1, areas=[9.], R=10., unit=[[1]], multi=1), dict(n=1, areas=[9.], R=10., unit=[[0]], differ=1),
          dict(n=1, areas=[9.], R=10., unit=[[0]], names=('/x/y/set_CRATER.shp', '/z/other.shp')),
          dict(n=1, areas=[9.], R=10., unit=[[0]], names=('/x/y/CRATER_my set.shp', '/x/y/AREA_my set.shp'), named='my set'), dict(n=1, areas=[9.], R=10., unit=[[0]], names=('/x/y/Luna CRATER.shp', '/x/y/b.shp'), named='Luna ')]
    c += [dict(n=n, areas=[9., 3.][:n], R=1737.4, unit=unit, projected=1) for n in (1, 2) for unit in ([[0]], [[0, 2], [1]])]
    return c


HARNESSES = [
    Harness('transform', h_transform, c_transform, bounds='all area fractions 0..1 and all pairs of them within 1/30 of the diameter'),
    Harness('scc', h_scc, c_scc, bounds='1..3 craters with all diameters, fractions and positions; 1..4 rings of 3..4 vertices with all coordinates, any numbering, tags and containment'),
    Harness('shp', h_shp, c_shp, bounds='1..3 craters, covered or cut by the unit with any area fraction, 1..3 parts with 0..2 holes'),
]
ASSUMPTIONS = ['the geometry libraries (S2, shapely, pyproj, pyshp) are stand-ins: areas, overlaps and containment are free values']

"""P36: shapefiles written for a spatial count carry its boundary and its craters."""
import math
import os
import re
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.geo import Sph, Poly, Multi

A, B = 30000., 29000.         # plane metres per degree of the stand-in projection


class Ring:
    def __init__(self, pts):
        self.coords = list(pts)

    @property
    def is_ccw(self):
        return bool(area2(self.coords) > 0)


def area2(p):
    """twice the signed area"""
    s = 0.
    for a, b in zip(p, p[1:] + p[:1]):
        s = s + (a[0] * b[1] - b[0] * a[1])
    return s


class Geom:
    """shapely polygon or multipolygon"""

    def __init__(self, polys, multi):
        self.polys, self.geom_type = polys, 'MultiPolygon' if multi else 'Polygon'
        if multi:
            self.geoms = [Geom([q], False) for q in polys]
        else:
            self.exterior, self.interiors = Ring(polys[0].shell), [Ring(h) for h in polys[0].holes]


def oriented(pts, ccw):
    pts = list(pts)
    return pts if bool(area2(pts) > 0) == ccw else pts[::-1]


def orient(g, sign=1.0):
    f = lambda q: Poly(oriented(q.shell, sign >= 0), [oriented(h, sign < 0) for h in q.holes])
    return Geom([f(q) for q in g.polys], g.geom_type == 'MultiPolygon')


def shapely_():
    single = lambda g: g.geom_type == 'Polygon'
    parts = lambda g: [g] if single(g) else list(g.geoms)
    load = lambda z: Geom(z.polys, True) if isinstance(z, Multi) else Geom([z], False)
    return Any(from_wkb=load, from_wkt=load, get_parts=parts, get_num_geometries=lambda g: len(parts(g)), get_geometry=lambda g, i: parts(g)[i],
               get_exterior_ring=lambda g: g.exterior if single(g) else None, get_num_interior_rings=lambda g: len(g.interiors) if single(g) else 0,
               get_interior_ring=lambda g, j: g.interiors[j] if single(g) else None, get_coordinates=lambda r: list(r.coords),
               get_type_id=lambda g: 3 if single(g) else 6, is_ccw=lambda r: r.is_ccw,
               orient_polygons=lambda g, exterior_cw=False: orient(g, -1. if exterior_cw else 1.), wkb=Any(loads=load), wkt=Any(loads=load),
               geometry=Any(polygon=Any(orient=orient)))


class Writer:
    made = []

    def __init__(self, target, *a, **k):
        self.target, self.fields, self.columns, self.records, self.shapes, self.closed = str(target), [], {}, [], [], False
        Writer.made.append(self)

    def field(self, name, field_type='C', size=50, decimal=0, **k):
        self.fields.append(name)
        self.columns[name] = (str(field_type).upper(), int(size), int(decimal))

    def record(self, *a, **k):
        self.records.append(dict(zip(self.fields, a), **k))

    def poly(self, parts, *a, **k):
        self.shapes.append([[tuple(p) for p in r] for r in parts])

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


def projections(I, used):
    class Crs:
        def __init__(self, t):
            self.text = t

        from_wkt = from_proj4 = from_string = from_user_input = classmethod(lambda cls, t: cls(t))

        def centre(self):
            after = lambda k: I.tonum(self.text.split(k)[1].split(' ')[0]) if k in self.text else 0.
            return (after('+lon_0='), after('+lat_0=')) if '+proj' in self.text else None

        def radius(self):
            for k, e in (('+R=', ' '), ('+a=', ' '), ('SPHEROID[', ']')):
                if k in self.text:
                    t = self.text.split(k)[1].split(e)[0]
                    return I.tonum(t.split(',')[1].strip() if ',' in t else t)

        @property
        def geodetic_crs(self):
            return Crs(f'SPHEROID["x", {self.radius()}, 0]')

        is_geographic = property(lambda s: s.centre() is None)

    class Transformer:
        def __init__(self, a, b, always_xy=False):
            I.check(always_xy, 'longitude first')
            self.a, self.b = a.centre(), b.centre()
            I.check((self.a is None) != (self.b is None), 'between the sphere and the plane')
            used.append((self.a or self.b, a.radius(), b.radius()))

        @classmethod
        def from_crs(cls, a, b, **k):
            return cls(a, b, **k)

        def transform(self, x, y, **k):
            o = self.a or self.b
            ox, oy = 1e4 * (o[0] + 3.), -2e4 * (o[1] - 1.)
            if self.b is not None:
                near.append((x, y, o))
                return (x - o[0]) * A + ox, (y - o[1]) * B + oy
            return (x - ox) / A + o[0], (y - oy) / B + o[1]

    near = []
    return Any(CRS=Crs, Transformer=Transformer), near


def free_ring(I, tag, x0, x1, y0, y1, cw, n):
    """a closed ring with free corners near those of the box"""
    e, h = (x1 - x0) / 24, (y1 - y0) / 24
    cor = [(x0, y0), (x1, y0 + 3 * h), (x1 - 3 * e, y1), (x0 + 3 * e, y1 - 3 * h)][:n]
    if cw:
        cor = cor[::-1]
    p = [(I.real(f'{tag}x{i}', x - e, x + e) if i == 1 else x, I.real(f'{tag}y{i}', y - h, y + h) if i == 2 else y) for i, (x, y) in enumerate(cor)]
    return p + [p[0]]


def write(I, polygon, R, craters, name='/x/out.shp', ring=None):
    S = I.cst.Spatialcount
    s = S.__new__(S)
    s.filename, s.name, s.planetary_radius, s.polygon = '/x/set.scc', 'set', R, polygon
    s.diam, s.lon, s.lat = [c[0] for c in craters], [c[1] for c in craters], [c[2] for c in craters]
    s.fraction = [1.] * len(craters)
    m = I.mod('craterstats.Spatialcount')
    texts, copies, used = {}, [], []
    prj, near = projections(I, used)
    Writer.made = []
    sph = Sph(I)
    sph.to_wkb = sph.to_wkt = lambda p: p
    with Patch(m, sph=sph, shp=shapely_(), shapefile=Any(Writer=Writer, is_cw=lambda r: bool(area2(list(r)) < 0)), prj=prj, shutil=Any(copy=lambda a, b: copies.append((a, b)), copyfile=lambda a, b: copies.append((a, b)))):
        with Patch(I.gm, write_textfile=lambda f, t, *a, **k: texts.update({f: t})):
            s.writeSHPfiles(name)
    files = {}
    for w in Writer.made:
        t = w.target[:-4] if w.target.endswith('.shp') else w.target
        files[t] = w
        I.check(w.closed, 'file closed')
        I.check(len(w.records) == len(w.shapes), 'one record per shape')
    stem = name[:-4]
    I.check(sorted(files) == [stem + '_AREA', stem + '_CRATER'], 'crater and area file')
    for k in files:
        st = [a for a, b in copies if str(b) == k + '.qml']
        I.check(len(st) == 1 and os.path.isfile(st[0]) and str(st[0]).endswith(k[len(stem):] + '.qml'), 'style of its kind')
        t = texts.get(k + '.prj')
        I.check(t is not None, 'projection file')
        t = t if isinstance(t, str) else '\n'.join(t)
        g = re.search(r'SPHEROID\["[^"]*",\s*([\d.]+)', t)
        I.check(t.startswith('GEOGCS') and g is not None and abs(float(g.group(1)) - R * 1000.) <= .5, 'planetary radius')
        I.check('Degree' in t, 'degrees')
    return files[stem + '_CRATER'], files[stem + '_AREA'], used, near


def same_ring(I, got, want):
    """the same closed ring, in any direction and from any vertex"""
    if len(got) != len(want):
        return False
    n = len(want) - 1
    ok = []
    w = want[:-1]
    for d in (w, w[::-1]):
        for k in range(n):
            q = d[k:] + d[:k]
            ok.append(I.all([I.all([g[0] - p[0] <= 1e-9, p[0] - g[0] <= 1e-9, g[1] - p[1] <= 1e-9, p[1] - g[1] <= 1e-9]) for g, p in zip(got, q + q[:1])]))
    return I.any(ok)


def h_area(I):
    c = I.case
    parts = []
    for k, nh in enumerate(c['parts']):
        x = -150 + 45 * k
        sh = free_ring(I, f'e{k}', x, x + 40, -20, 20, c['dir'][0], c.get('sides', 4))
        parts.append(Poly(sh, [free_ring(I, f'h{k}{q}', x + 8 + 12 * q, x + 14 + 12 * q, -3, 3, c['dir'][1], 4) for q in range(nh)]))
    multi = c.get('multi', 1)
    w, a, _, _ = write(I, Multi(parts) if multi else parts[0], c['R'], [(1., 2., 3.)])
    I.check(len(a.shapes) == len(parts), 'one shape per part of the unit')
    for s, p in zip(a.shapes, parts):
        I.check(len(s) == 1 + len(p.holes), 'rings of the part')
        for j, (r, v) in enumerate(zip(s, [p.shell] + p.holes)):
            I.check(same_ring(I, r, v), 'vertices of the ring')
            t = area2(list(r))
            I.check(t > 0 if j else t < 0, 'outer rings clockwise and holes counter-clockwise')
    names = [r.get('area_name') for r in a.records]
    I.check(None not in names and len(set(names)) == len(names), 'parts named')
    I.reach('area')


def h_craters(I):
    c = I.case
    n = len(c['at'])
    R = c['R']
    cr = [(I.real(f'd{i}', .01, 150.), I.real(f'lon{i}', x, x + c['w']), I.real(f'lat{i}', y, y + c['w'])) for i, (x, y) in enumerate(c['at'])]
    sh = [(0., 0.), (0., 1.), (1., 1.), (1., 0.), (0., 0.)]
    w, a, used, near = write(I, Multi([Poly(sh)]), R, cr)
    for o, r1, r2 in used:
        I.check(abs(r1 - R * 1e3) <= .5 and abs(r2 - R * 1e3) <= .5, 'projections of the planet')
    for x, y, o in near:
        I.check(I.all([x - o[0] <= 4., o[0] - x <= 4., y - o[1] <= 4., o[1] - y <= 4.]), 'projection centred near the crater')
    I.check(len(w.shapes) == n, 'one shape per crater')
    for s, q, (d, x, y) in zip(w.shapes, w.records, cr):
        for k, v in (('Diam_km', d), ('x_coord', x), ('y_coord', y)):
            I.check(k in q, 'diameter and position recorded')
            I.check(I.all([q[k] - v <= 1e-9, v - q[k] <= 1e-9]), 'diameter and position recorded')
            t, size, dec = w.columns[k]
            I.check(t in 'FN' and size - dec >= 5, 'column holds whole numbers of three digits and a sign')
            half = .5 * 10. ** -dec    # a table holds the value rounded to its decimals
            I.check(I.all([q[k] + half <= v * (1 + 1e-3), v * (1 - 1e-3) <= q[k] - half]) if k == 'Diam_km' else half <= 1e-6, 'column keeps the value to a thousandth of the diameter, a millionth of a degree')
        I.check(q.get('tag') == 'standard', 'crater tag')
        I.check(len(s) == 1, 'one ring per crater')
        rim, r = s[0], d * 500.
        I.check(len(rim) >= 25, 'enough vertices')
        v = [((p[0] - x) * A, (p[1] - y) * B) for p in rim]
        e = r * 1e-3
        I.check(I.all([v[0][0] - v[-1][0] <= e, v[-1][0] - v[0][0] <= e, v[0][1] - v[-1][1] <= e, v[-1][1] - v[0][1] <= e]), 'closed rim')
        I.check(I.all([I.all([a2 <= r * r * 1.002, a2 >= r * r * .998]) for a2 in [p[0] * p[0] + p[1] * p[1] for p in v]]), 'vertices at the radius from the centre')
        t = area2(v)
        I.check(I.any([I.all([t >= 2 * math.pi * .99 * r * r, t <= 2 * math.pi * 1.002 * r * r]), I.all([-t >= 2 * math.pi * .99 * r * r, -t <= 2 * math.pi * 1.002 * r * r])]), 'rim goes round once')
    I.reach('craters')


RAD = (1737.4, 3396.19, 470.)


def c_area(t):
    c = []
    P = [[0], [1], [2], [0, 0], [1, 0], [0, 1], [1, 1], [0, 0, 0], [2, 0, 1]]
    for i, p in enumerate(P):
        for d in ((0, 0), (1, 1), (0, 1), (1, 0)):
            c.append(dict(parts=p, dir=d, R=RAD[i % 3]))
    c += [dict(parts=[k], dir=(0, 1), R=RAD[0], multi=0) for k in (0, 1, 2)]
    c += [dict(parts=[1, 0], dir=(0, 1), R=RAD[0], sides=3)]
    return c


def c_craters(t):
    c = [dict(at=[p], w=2., R=RAD[i % 3]) for i, p in enumerate([(-1., -1.), (1.6, 4.), (176.6, 60.), (-179.9, -83.), (40., 86.)])]
    c += [dict(at=[(1.9, 1.), (6.9, 1.)], w=1.2, R=RAD[0]), dict(at=[(1., 1.), (1., 9.)], w=3., R=RAD[1]), dict(at=[(-3., 8.), (8., -3.)], w=1.5, R=RAD[2]), dict(at=[(1., 1.), (1.5, 1.5), (12., 1.)], w=.9, R=RAD[0]),
          dict(at=[(0., 0.), (21., .5), (1., .1)], w=.9, R=RAD[1]), dict(at=[(0., 0.), (.5, 21.), (.1, 1.)], w=.9, R=RAD[0])]
    if t != 'quick':
        c += [dict(at=[(x, y)], w=6., R=RAD[0]) for x in (-180., -60., 10., 170.) for y in (-90., -40., 3., 80.)]
    return c


HARNESSES = [
    Harness('area', h_area, c_area, bounds='1..3 parts with 0..2 holes, rings drawn in either direction, two corners of every ring free'),
    Harness('craters', h_craters, c_craters, bounds='1..3 craters of all diameters .01..150 km, all positions in windows of 0.9..3 (thorough 6) degrees'),
]
ASSUMPTIONS = ['the geometry libraries (S2, shapely, pyproj, pyshp) are stand-ins: projections are affine maps, the writer records what it is given']

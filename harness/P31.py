"""P31: random placements, nearest neighbours, randomness statistics and the independence of trials."""
import itertools
import math
import os
from symx.check import Harness
from harness.P24 import Any, Patch
from harness.P30 import analysis
from harness.util import near

R0 = 1737.4


# ---------------------------------------------------------------- units and search grid
class Unit:
    def __init__(self, f):
        self.f = f

    def __rmul__(self, v):
        return Angle(v, self.f)

    __mul__ = __rmul__


class Angle:
    """an angle with its unit; value in radians by rad()"""
    __array_ufunc__ = None

    def __init__(self, v, f):
        self.v, self.f = v, f

    def rad(self):
        return self.v * self.f


UNITS = Any(deg=Unit(math.pi / 180), rad=Unit(1.), radian=Unit(1.), degree=Unit(math.pi / 180))


class Pt:
    def __init__(self, i, lon, lat):
        self.i, self.lon, self.lat = i, lon, lat


class Geometry(Any):
    """points with free distances; the unit contains those flagged inside"""

    def create_point(self, longitude=None, latitude=None):
        return self.points[self.where[(longitude, latitude)]]

    def within(self, p, poly):
        self.I.check(poly is self.unit, 'inside the counting area')
        return bool(self.inside[p.i])

    def covers(self, poly, p):
        return self.within(p, poly)

    contains = covers
    intersects = covers

    def distance(self, a, b, radius=None):
        self.I.check(radius == R0, 'distance at the planetary radius')
        return self.d(a.i, b.i)

    def get_x(self, p):
        return p.lon

    def get_y(self, p):
        return p.lat


class Grid(Any):
    """a search grid that keeps the documented promises and no others"""

    def at(self, lon, lat):
        k = (lon.rad() * 180 / math.pi, lat.rad() * 180 / math.pi)
        for (x, y), i in self.where.items():
            if abs(x - k[0]) < 1e-9 and abs(y - k[1]) < 1e-9:
                return i
        raise AssertionError('unknown position')

    def lonlat_to_healpix(self, lon, lat):
        return self.cell[self.at(lon, lat)]

    def cone_search_lonlat(self, lon, lat, radius):
        """all cells overlapping the cone: any cell with a point in it, and possibly others"""
        i = self.at(lon, lat)
        r = radius.rad() * R0
        self.calls += 1
        out = []
        for c in self.cells:
            near_ = [self.d(i, j) <= r for j in self.cell if self.cell[j] == c]
            f = self.I.flag(f'cone{self.calls}_{c}') if self.loose else False
            self.I.assume(self.I.imp(self.I.any(near_), f)) if self.loose else None
            if bool(f if self.loose else self.I.any(near_)):
                out.append(c)
        return out

    def neighbours(self, ids):
        import numpy
        ids = [int(x) for x in (ids if isinstance(ids, (tuple, list, set)) or hasattr(ids, '__len__') else [ids])]
        rows = [[x for x in self.adj.get(c, [])] for c in ids]
        return numpy.array([(r + [-1] * 8)[:8] for r in rows], dtype=int).T


def world(I, n, cells, dmax=50., inside=None, loose=True):
    lon = [10. + 3 * ((3 * i + 1) % 7) for i in range(n)]
    lat = [-20. + 7 * ((2 * i + 1) % 7) for i in range(n)]
    where = {(x, y): i for i, (x, y) in enumerate(zip(lon, lat))}
    pts = [Pt(i, x, y) for i, (x, y) in enumerate(zip(lon, lat))]
    dist = {}

    def d(i, j):
        if i == j:
            return 0.
        k = (min(i, j), max(i, j))
        if k not in dist:
            dist[k] = I.real(f'd{k[0]}_{k[1]}', 1e-3, dmax)
        return dist[k]

    unit = Any()
    geo = Geometry(I=I, points=pts, where=where, inside=inside or [True] * n, unit=unit, d=d)
    grid = Grid(I=I, where=where, cell=dict(enumerate(cells)), cells=sorted(set(cells)), d=d, calls=0, loose=loose, adj={})
    return pts, geo, grid, unit, d


def path(cells):
    c = sorted(cells)
    return {a: [b for b in c if abs(c.index(a) - c.index(b)) == 1] for a in c}


# ---------------------------------------------------------------- placement
def h_place(I):
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    n, K, cells = c['n'], c['K'], c['cells']
    inside = [I.flag(f'inside{i}') for i in range(K)]
    pts, geo, grid, unit, d = world(I, K, cells, inside=inside, loose=c.get('loose', False))
    diam = c.get('diam', 10.)
    used = [0]
    asked = []

    def points(self, z):
        I.check(z >= 1, 'asks for points')
        asked.append(z)
        for _ in range(z):
            if used[0] >= K:
                I.assume(False)     # more candidates than within the bounds
            i = used[0]
            used[0] += 1
            yield pts[i].lon, pts[i].lat

    pp = Any(area=I.real('share', .3, .9) * 1000. if c.get('free_area') else 500., enclosing_area=1000., planetary_radius=R0, polygon=unit, hp=grid, xr=(0, 50), yr=(-30, 30), measure='m2cnd', trials=3, max_threads=2)
    with Patch(m, sph=geo, u=UNITS, random_points_pp=points):
        p, ids, hpd = m.sprinkle_discs_pp(pp, n, diam)
    p, ids = list(p), list(ids)
    I.check(len(p) == n and len(ids) == n, 'requested number of craters')
    I.check(sorted(x.i for v in hpd.values() for x in v) == sorted(x.i for x in p) and len(set(x.i for x in p)) == n, 'every crater once')
    for x, cell in zip(p, ids):
        I.check(cell == grid.cell[x.i] and any(y is x for y in hpd.get(cell, [])), 'crater in its own cell')
        I.check(inside[x.i], 'inside the counting area')
    for x, y in itertools.combinations(p, 2):
        I.check(d(x.i, y.i) > diam / 2, 'no centre within half a diameter of a later crater')
    kept = {x.i for x in p}
    for i in range(used[0]):
        if i not in kept:
            later = [I.all([inside[j], d(i, j) <= diam / 2]) for j in range(i + 1, used[0])]
            I.check(I.any([I.nt(inside[i])] + later), 'only overprinted craters are lost')
    I.reach('placed')


def h_batch(I):
    """when the first guess at the number of points is too small"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    n = c['n']
    area = c.get('area', 700.)
    seen = []
    hits = c['hits']            # hits of each batch come last
    made = []

    class Geo(Any):
        def create_point(self, longitude=None, latitude=None):
            return Pt(int(longitude), longitude, latitude)

        def within(self, p, poly):
            return p.i in made

        def distance(self, *a, **k):
            return 1e9

    class Hp(Any):
        def lonlat_to_healpix(self, x, y):
            return 5

        def cone_search_lonlat(self, x, y, r):
            return [5]

    def points(self, z):
        k = len(seen)
        seen.append(z)
        if k >= len(hits):
            I.assume(False)
        if not isinstance(z, int) and I.sym:
            z = int(z)
        base = 10000 * k
        h = [base + z - 1 - j for j in range(hits[k])]
        made.extend(h)
        return iter([(float(base + j), 0.) for j in range(z)])

    pp = Any(area=area, enclosing_area=c['share'] * area, planetary_radius=R0, polygon=Any(), hp=Hp())
    with Patch(m, sph=Geo(), u=UNITS, random_points_pp=points):
        p, ids, hpd = m.sprinkle_discs_pp(pp, n, 1.)
    I.check(len(p) == len(ids) == n, 'requested number of craters')
    I.check(sorted(x.i for x in p) == sorted(sorted(made)[:n]), 'the first craters that fall inside')
    I.reach('batch')


class Draws:
    """free numbers between 0 and 1 behind the generator's functions"""

    def __init__(self, I):
        self.I, self.k = I, 0

    def one(self):
        self.k += 1
        return self.I.real(f'u{self.k}', 0., 1.)

    def uniform(self, low=0., high=1., size=None):
        f = lambda: low + (high - low) * self.one()
        return f() if size is None else self.I.np.array([f() for _ in range(size)])

    def random(self, size=None):
        return self.uniform(0., 1., size)

    random_sample = random

    def rand(self, *n):
        return self.uniform(0., 1., n[0] if n else None)


class Num:
    """numpy or math with some functions replaced"""

    def __init__(self, base, **k):
        self.__dict__.update(k, base=base)

    def __getattr__(self, n):
        return getattr(self.base, n)


def h_uniform(I):
    """points are uniform in area over the enclosing box"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    np, n = I.np, c['n']
    y0, y1 = c['yr']
    x0, x1 = I.real('x0', -180, 0), I.real('x1', 1, 180)
    D = Draws(I)
    inv = []

    def asin(v, kind=0):
        if not I.sym or not hasattr(v, 'n') and not hasattr(v, '__len__'):
            import numpy
            return numpy.arcsin(v) if not kind else numpy.arccos(v)
        if hasattr(v, '__len__'):
            return np.array([asin(e, kind) for e in v])
        a = I.real(f'angle{len(inv)}', -math.pi / 2, math.pi / 2)
        inv.append((v, a))
        return a if not kind else math.pi / 2 - a

    acos = lambda v: asin(v, 1)
    import math as math_
    fake = Num(np, random=D, asin=asin, arcsin=asin, acos=acos, arccos=acos)
    fm = Num(m.math, asin=asin, acos=acos) if hasattr(m, 'math') else None
    with Patch(m, np=fake, math=fm):
        pts = list(m.random_points_pp(Any(xr=(x0, x1), yr=(y0, y1)), n))
    I.check(len(pts) == n, 'number of points')
    U = [D_value(I, k + 1) for k in range(D.k)]
    s0, s1 = math_.sin(math_.radians(y0)), math_.sin(math_.radians(y1))
    tol = 1e-9
    eq = lambda a, b: I.all([a - b <= tol * 200, b - a <= tol * 200])
    cand = []
    for lon, lat in pts:
        a = [k for k in range(D.k)]
        xs = [eq(lon, x0 + (x1 - x0) * U[k]) for k in a]
        if I.sym:
            ys = [I.any([I.all([eq(v, s0 + (s1 - s0) * U[k]), eq(lat, ang * (180 / math_.pi))]) for v, ang in inv]) for k in a]
        else:
            ys = [eq(math_.sin(math_.radians(lat)), s0 + (s1 - s0) * U[k]) for k in a]
        cand.append((xs, ys))
    # an assignment of a draw of its own to every coordinate
    ok = [I.all([I.all([cand[i][0][pm[2 * i]], cand[i][1][pm[2 * i + 1]]]) for i in range(n)]) for pm in itertools.permutations(range(D.k), 2 * n)]
    I.check(I.any(ok), 'longitude and area are uniform and independent')
    I.reach('uniform')


def h_box(I):
    """the box the points are drawn from"""
    m = I.mod('craterstats.Spatialcount')
    b = (I.real('x0', -180, 0), I.real('y0', -89, 0), I.real('x1', 1, 180), I.real('y1', 1, 89))
    north, south = I.flag('north'), I.flag('south')
    unit, A = Any(), I.real('A', 1, 1e8)
    S = I.cst.Spatialcount
    s = S.__new__(S)
    s.polygon, s.planetary_radius, s.area, s.perimeter = unit, R0, 1000., 200.
    box = []

    class Geo(Any):
        def create_point(self, longitude=None, latitude=None):
            return latitude

        def covers(self, p, q):
            I.check(p is unit and abs(q) == 90, 'poles in the counting area')
            return bool(north if q > 0 else south)

        contains = covers

        def within(self, q, p):
            return self.covers(p, q)

        def create_polygon(self, shell=None, **k):
            box.append(shell)
            return Any()

        def to_wkt(self, p):
            return p

        to_wkb = to_wkt

        def area(self, p, radius=None):
            I.check(radius == R0, 'area at the planetary radius')
            return A

    fake = Any(bounds=b)
    shp = Any(from_wkt=lambda p: fake, from_wkb=lambda p: fake, bounds=lambda p: b)
    with Patch(m, sph=Geo(), shp=shp):
        s.find_enclosing_polygon()
    n, t = bool(north), bool(south)
    I.check(s.yr[1] == (90 if n else b[3]), 'northern limit')
    I.check(s.yr[0] == (-90 if t else b[1]), 'southern limit')
    I.check(s.xr[0] == (-180 if n or t else b[0]) and s.xr[1] == (180 if n or t else b[2]), 'longitude limits')
    I.check(s.enclosing_area == A, 'area of the box')
    for v in box:
        I.check(len(v) == 4 and I.all([I.any([x == s.xr[0], x == s.xr[1]]) for x, y in v] + [I.any([y == s.yr[0], y == s.yr[1]]) for x, y in v]), 'corners of the box')
    I.reach('box')


def h_areas(I):
    """standard deviation of the areas of the Voronoi cells within the unit"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    n = c['n']
    lon, lat = [10. + 31 * i for i in range(n)], [-40. + 23 * i for i in range(n)]
    pts = [Pt(i, x, y) for i, (x, y) in enumerate(zip(lon, lat))]
    A = [I.real(f'A{i}', .1, 1000.) for i in range(n)]
    unit = Any()
    tri = [[(40. * i + 1., -30. + 11 * i), (40. * i + 20, -29. + 11 * i), (40. * i + 9, -10. + 9 * i)] for i in range(n)]
    xyz = lambda x, y: (math.cos(math.radians(y)) * math.cos(math.radians(x)), math.cos(math.radians(y)) * math.sin(math.radians(x)), math.sin(math.radians(y)))
    given = []

    class Voronoi:
        def __init__(self, points, radius=1, center=None, threshold=None):
            import numpy
            given.append((numpy.array(points, dtype=float), radius, center))
            self.vertices = numpy.array([xyz(x, y) for t in tri for x, y in t])
            self.regions = [[3 * i, 3 * i + 1, 3 * i + 2] for i in range(n)]

        def sort_vertices_of_regions(self):
            pass

    class Geo(Any):
        def get_x(self, p):
            return p.lon

        def get_y(self, p):
            return p.lat

        def create_polygon(self, shell=None, **k):
            v = [(float(x), float(y)) for x, y in shell]
            for i, t in enumerate(tri):
                if len(v) == 3 and all(any(abs(((x - a + 180) % 360) - 180) < 1e-6 and abs(y - b) < 1e-6 for x, y in v) for a, b in t):
                    return ('cell', i)
            I.check(False, 'corners of the cells')

        def intersection(self, a, b):
            I.check(a is unit and b[0] == 'cell' or b is unit and a[0] == 'cell', 'part of the cell in the counting area')
            return ('part', (b if a is unit else a)[1])

        def area(self, p, radius=None):
            I.check(p[0] == 'part' and radius == R0, 'area at the planetary radius')
            return A[p[1]]

    with Patch(m, sph=Geo(), SphericalVoronoi=Voronoi):
        sd, parts = m.evaluate_randomness(Any(measure='sdaa', polygon=unit, planetary_radius=R0), pts, [0] * n, {})
    I.check(len(given) == 1, 'cells computed')
    v, radius, cen = given[0]
    I.check(len(v) == n and all(any(max(abs(v[i][k] / radius - xyz(x, y)[k]) for k in range(3)) < 1e-9 for i in range(n)) for x, y in zip(lon, lat)), 'positions of the craters')
    I.check(cen is None or all(float(e) == 0 for e in cen), 'centre of the sphere')
    I.check([p[1] for p in parts] == list(range(n)), 'cell of every crater')
    mean = sum_(A) / n
    var = sum_([(x - mean) * (x - mean) for x in A]) / n
    I.check(I.all([sd >= 0, sd * sd - var <= 1e-6 * var + 1e-12, var - sd * sd <= 1e-6 * var + 1e-12]), 'standard deviation of the areas')
    I.reach('areas')


def D_value(I, k):
    return I.real(f'u{k}', 0., 1.)


# ---------------------------------------------------------------- statistics
def h_neighbour(I):
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    n, k, cells = c['n'], c['k'], c['cells']
    pts, geo, grid, unit, d = world(I, n, cells, loose=c.get('loose', False), dmax=5000.)
    grid.adj = path(c.get('grid', sorted(set(cells))))
    hpd = {}
    for i, x in enumerate(cells):
        hpd.setdefault(x, []).append(pts[i])
    pp = Any(planetary_radius=R0, hp=grid, polygon=unit, area=500., measure='m2cnd')
    with Patch(m, sph=geo, u=UNITS):
        if c.get('measure'):
            mean, nb = m.evaluate_randomness(pp, list(pts), list(cells), hpd)
        else:
            mean, nb = m.kth_nearest_neighbour_pp(pp, list(pts), list(cells), hpd, k=k)
    I.check(len(nb) == n, 'one neighbour per crater')
    s = 0.
    for i, e in enumerate(nb):
        x = d(i, e.i)
        others = [d(i, j) for j in range(n) if j != i]
        I.check(e.i != i, 'another crater')
        I.check(I.all([I.count([o < x for o in others]) <= k - 1, I.count([o <= x for o in others]) >= k]), 'k-th smallest distance')
        s = s + x
    I.check(I.all([mean * n - s <= 1e-9 * s, s - mean * n <= 1e-9 * s]), 'mean distance')
    I.reach('neighbour')


def h_stats(I):
    """observed measure against the trials"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    np = I.np
    a = analysis(I, os.path.join(I.tmp, 'set.scc'), os.path.join(I.tmp, 'none'))
    a.hp = Any()
    obs, tr = {}, {}
    for measure, bins in c['bins'].items():
        tr[measure] = {b: [I.real(f'{measure}{b}_{t}', .1, 1000) for t in range(c['trials'])] for b in bins}
        for b in bins:
            v = tr[measure][b]
            I.assume(v[0] - v[1] >= .01)
            obs[(measure, b)] = I.real(f'obs{measure}{b}', .1, 1000)
        a.montecarlo[measure] = {'n_trials': c['trials'], 'trials': {b: list(v) for b, v in tr[measure].items()}}

    def evaluate(self_pp, pts, ids, hpd):
        return obs[(self_pp.measure, pts)], ('second', self_pp.measure, pts)

    with Patch(m, evaluate_randomness=evaluate):
        with Patch(I.cst.Randomnessanalysis, get_bin_craters=lambda self, b, *x: (b, b, b)):
            a.calculate_stats()
    for measure in tr:
        st = a.montecarlo[measure]['stats']
        I.check(list(st.keys()) == list(tr[measure].keys()), 'all bins')
        for b, v in tr[measure].items():
            s, o, n = st[b], obs[(measure, b)], len(v)
            mean = sum_(v) / n
            var = sum_([(x - mean) * (x - mean) for x in v]) / n
            I.check(s.m0 == o and s.p2 == ('second', measure, b), 'observed measure of the bin')
            I.check(I.all([s.mn - mean <= 1e-9 * mean, mean - s.mn <= 1e-9 * mean]), 'mean of the trials')
            I.check(I.all([s.sd >= 0, s.sd * s.sd - var <= 1e-6 * var, var - s.sd * s.sd <= 1e-6 * var]), 'standard deviation of the trials')
            I.check(I.all([s.n_sigma * s.sd - (o - mean) <= 1e-6, (o - mean) - s.n_sigma * s.sd <= 1e-6]), 'n sigma')
            lo, hi = I.count([x < o for x in v]), I.count([x <= o for x in v])
            I.check(I.all([s.percentile * n >= 100 * lo - 1e-6, s.percentile * n <= 100 * hi + 1e-6]), 'percentile')
            I.check(list(a.montecarlo[measure]['trials'][b]) == v or all(bool(x == y) for x, y in zip(a.montecarlo[measure]['trials'][b], v)), 'trials kept')
    I.reach('stats')


def sum_(v):
    r = 0.
    for e in v:
        r = r + e
    return r


def h_bin(I):
    """the craters of a bin"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    n = c['n']
    lo, hi = c['range']
    d = [I.log(f'd{i}', lo, hi) for i in range(n)]
    for x, y in zip(d, d[1:]):
        I.assume(x <= y)
    k0 = math.floor(2 * math.log2(lo))
    limits = I.np.array([2. ** (k / 2) for k in range(k0, math.ceil(2 * math.log2(hi)) + 2)])
    with Patch(I.cst.Cratercount, generate_bins=lambda self, *x, **k: limits):
        a = analysis(I, os.path.join(I.tmp, 'set.scc'), os.path.join(I.tmp, 'none'), diam=d)
    pts, geo, grid, unit, _ = world(I, n, c['cells'])
    a.lon, a.lat = [p.lon for p in pts], [p.lat for p in pts]
    a.fraction = [.5 + i / 10 for i in range(n)]
    a.hp = grid
    got = {}
    bins = list(a.cc.binned['d_min'])
    for b, k in zip(bins, list(a.cc.binned['n_event'])):
        if not bool(k > 0):
            continue
        j = round(2 * math.log2(float(b)))
        key = f'{math.log2(float(b)):.3g}'
        with Patch(m, sph=geo, u=UNITS):
            p, ids, hpd = a.get_bin_craters(key)
            cl = a.get_bin_craters(key, Craterlist=True)
        want = [i for i in range(n) if bool(d[i] >= 2. ** (j / 2)) and bool(d[i] < 2. ** ((j + 1) / 2))]
        I.check(bool(k == len(want)), 'number of craters of the bin')
        I.check([x.i for x in p] == want, 'craters of the bin')
        I.check(list(ids) == [c['cells'][i] for i in want], 'cells of the craters')
        I.check({q: [x.i for x in v] for q, v in hpd.items()} == {q: [i for i in want if c['cells'][i] == q] for q in {c['cells'][i] for i in want}}, 'search table')
        I.check(list(cl.lon) == [a.lon[i] for i in want] and list(cl.lat) == [a.lat[i] for i in want] and list(cl.fraction) == [a.fraction[i] for i in want], 'positions and fractions')
        I.check(len(cl.diam) == len(want) and all(bool(x == d[i]) for x, i in zip(cl.diam, want)), 'diameters')
        for i in want:
            got[i] = got.get(i, 0) + 1
    I.check(got == {i: 1 for i in range(n)}, 'every crater in one bin')
    I.reach('bin')


# ---------------------------------------------------------------- trials on worker processes
class Rng:
    """numpy.random as (sequence, position): which draws a trial sees"""

    def __init__(self):
        self.stream, self.pos, self.fresh = ('start',), 0, [0]

    def seed(self, seed=None):
        s = seed
        if s is None:
            self.fresh[0] += 1
            s = ('entropy', self.fresh[0])
        self.stream, self.pos = ('seed', key(s)), 0

    def draw(self):
        self.pos = self.pos + 1
        return (self.stream, self.pos)

    def number(self):
        s, p = self.draw()
        return NUMBERS.setdefault((s, str(p)), 1000003 + 7919 * len(NUMBERS))

    def randint(self, low, high=None, size=None, dtype=None, **k):
        if size is None:
            return self.number()
        return [self.number() for _ in range(size)]

    integers = randint

    def default_rng(self, seed=None):
        r = Rng()
        r.fresh = self.fresh
        r.seed(seed)
        return r

    RandomState = Generator = default_rng


NUMBERS = {}


def key(s):
    return tuple(key(e) for e in s) if isinstance(s, (list, tuple)) or hasattr(s, '__len__') else int(s) if not isinstance(s, str) else s


def h_trials(I):
    """every distribution of trials over worker processes, started by copying or anew"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    T, W = c['trials'], c['workers']
    NUMBERS.clear()
    rng = Rng()
    seen = []
    cur = [None]
    copied = I.flag('workers_copied')
    runs = [0]
    who = {}

    class Future:
        def __init__(self, v):
            self.v = v

        def result(self, *a):
            return self.v

    class Pool:
        def __init__(self, max_workers=None, *a, **k):
            I.check(max_workers is None or max_workers >= 1, 'at least one worker')
            self.run, self.k = runs[0], 0
            runs[0] += 1
            self.before = (rng.stream, rng.pos)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def submit(self, f, *a, **k):
            i = (self.run, self.k)
            self.k += 1
            who[i] = I.int(f'worker{i[0]}_{i[1]}', 0, W - 1)
            parent = (rng.stream, rng.pos)
            # position reached by the earlier trials on the same worker
            earlier = [who[j] == who[i] for j in who if j[0] == i[0] and j != i]
            rng.stream, rng.pos = ('worker', i[0]), I.count(earlier)
            cur[0] = (i, parent)
            try:
                v = f(*a, **k)
            finally:
                rng.stream, rng.pos = parent
            return Future(v)

        def map(self, f, *its, **k):
            return [self.submit(f, *a).result() for a in zip(*its)]

    class Manager(Any):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def Value(self, t, v):
            return Any(value=v)

        def Queue(self, *a):
            return Any(put=lambda *x: None, get=lambda *x: None, empty=lambda: True)

    def place(self, n, diam):
        st, ps = rng.draw()
        seen.append((cur[0], st, ps, n, diam))
        return (('pt', len(seen)),), (0,), {}

    def measure(self, pts, ids, hpd):
        return float(pts[0][1]), None

    pp = Any(trials=T, measure='m2cnd', max_threads=W)
    q = Any(put=lambda *a: None)
    mp = Any(Manager=lambda: Manager(), cpu_count=lambda: 4)
    with Patch(m, np=Num(I.np, random=rng), multiprocessing=mp, ProcessPoolExecutor=Pool, sprinkle_discs_pp=place, evaluate_randomness=measure):
        rng.seed(42)
        out = [m.montecarlo_pp(pp, b, n, progress_queue=q) for b, n in c['bins']]
    for r, ((b, n), v) in enumerate(zip(c['bins'], out)):
        I.check(len(v) == T, 'as many trials as requested')
        I.check([float(x) for x in v] == [float(r * T + i + 1) for i in range(T)], 'trials in order')
    I.check(len(seen) == T * len(c['bins']), 'as many configurations as trials')
    for r, s in enumerate(seen):
        I.check(s[3] == c['bins'][r // T][1] and s[4] == c['bins'][r // T][0], 'number and diameter of the bin')
    for s, t in itertools.combinations(seen, 2):
        I.check(I.nt(same_draw(I, s, t, copied, who)), 'trials do not share their random draws')
    I.reach('trials')


def same_draw(I, s, t, copied, who):
    """could both trials start from the same point of the same sequence?"""
    (si, sp), (ti, tp) = s[0], t[0]
    a, b = s[1], t[1]
    if a[0] == 'worker' and b[0] == 'worker':
        # a copied worker continues its parent's sequence; a new one has a sequence of its own
        same_parent = sp == tp
        run = si[0] == ti[0]
        return I.all([s[2] == t[2], I.any([I.all([copied, same_parent]), I.all([run, who[si] == who[ti]])])])
    if a[0] == 'worker' or b[0] == 'worker':
        return False
    return I.all([a == b, s[2] == t[2]])


KEPT = {'m2cnd': 7., 'sdaa': 8.}


def h_run(I):
    """which trials a request makes, and which stored ones it uses again"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    measure = c['measure']
    bins = [tuple(e) for e in c['bins']]
    a = analysis(I, os.path.join(I.tmp, 'set.scc'), os.path.join(I.tmp, 'none'), diam=[2. ** (k / 2 + .1) for k, n in bins for _ in range(n)])
    a.area, a.enclosing_area, a.polygon, a.xr, a.yr, a.planetary_radius = 100., 200., Any(), (0., 1.), (0., 1.), R0
    T = I.int('wanted', 1, 1000)
    old = {}
    other = next(e for e in ('m2cnd', 'sdaa') if e != measure)
    for e in c['stored']:
        old[e] = I.int('stored_' + e, 1, 1000)
        a.montecarlo[e] = {'n_trials': old[e], 'trials': {'0': [KEPT[e], 2.]}}
    made = []

    def runs(self_pp, b, n, progress_queue=None):
        I.check(self_pp.trials == T and self_pp.measure == measure, 'the trials and the measure asked for')
        made.append((round(2 * math.log2(float(b))), int(n), [100. + len(made), 1.]))
        return made[-1][2]

    with Patch(m, montecarlo_pp=runs, montecarlo_serial=runs, hpx=Any(HEALPix=lambda *x, **k: Any())), Patch(a, print=lambda *x: None):
        a.run_montecarlo(T, measure)
    if measure in old and bool(old[measure] >= T):
        I.check(not made and a.montecarlo[measure]['trials'] == {'0': [KEPT[measure], 2.]} and bool(a.montecarlo[measure]['n_trials'] == old[measure]), 'enough stored trials are used again')
        I.reach('kept')
    else:
        got = a.montecarlo[measure]['trials']
        I.check(bool(a.montecarlo[measure]['n_trials'] == T), 'number of trials asked for')
        I.check({k: [float(e) for e in v] for k, v in got.items()} == {f'{k / 2:.3g}': v for k, n, v in made}, 'each bin its own trials')
        I.check([(k, n) for k, n, v in made if n >= 4] == [(k, n) for k, n in sorted(bins) if n >= 4], 'a run for every bin with enough craters')
        I.check(all((k, n) in bins for k, n, v in made), 'runs with the number of craters of the bin')
        I.reach('made')
    if other in old:
        I.check(a.montecarlo[other]['trials'] == {'0': [KEPT[other], 2.]} and bool(a.montecarlo[other]['n_trials'] == old[other]), 'the other measure keeps its trials')


def h_limits(I):
    """machine sizes and search grids"""
    c = I.case
    m = I.mod('craterstats.Randomnessanalysis')
    if 'cpus' in c:
        os_ = Num(m.os, cpu_count=lambda: c['cpus'])
        mp = Num(m.multiprocessing, cpu_count=lambda: c['cpus'] or 1)
        with Patch(m, os=os_, multiprocessing=mp):
            a = analysis(I, os.path.join(I.tmp, 'set.scc'), os.path.join(I.tmp, 'none'))
        I.check(a.max_threads >= 1 and a.max_threads <= max(1, c['cpus'] or 1), 'at least one worker')
        I.reach('cpus')
        return
    a = analysis(I, os.path.join(I.tmp, 'set.scc'), os.path.join(I.tmp, 'none'))
    a.planetary_radius = R0
    a.area = I.log('area', c['area'][0], c['area'][1])
    made = []

    def HEALPix(nside=None, order='ring', **k):
        made.append(nside)
        return Any(nside=nside)

    with Patch(m, hpx=Any(HEALPix=HEALPix)):
        a.establish_hpx(c['n'])
    ns = made[0]
    I.check(I.any([near(I, ns, 2. ** k, 1e-6) for k in range(0, 24)]), 'a valid number of cells')
    I.reach('grid')


def c_place(t):
    c = []
    for n, K in ((1, 2), (2, 3), (2, 4), (3, 4)) + (((3, 5), (4, 5)) if t != 'quick' else ()):
        pats = [[0] * K, [i % 2 for i in range(K)], [i % 3 for i in range(K)], list(range(K)), [0, 1, 1, 0, 2][:K]]
        for cells in pats if t != 'quick' or K < 4 else pats[:2] if n == 2 else pats[1:2]:
            c.append(dict(n=n, K=K, cells=cells, loose=K <= 3 and len(set(cells)) <= 2, diam=10. if K % 2 else 3.))
    return c


def c_neigh(t):
    c = []
    for n in (3, 4) if t != 'quick' else (3,):
        for cells in itertools.product(range(3), repeat=n) if t != 'quick' else ([0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 2], [1, 0, 2], [2, 2, 0]):
            cells = list(cells)
            c.append(dict(n=n, k=2, cells=cells, grid=list(range(3))))
            if n == 3:
                c.append(dict(n=n, k=1, cells=cells, loose=len(set(cells)) < 3, grid=list(range(4))))
    c += [dict(n=4, k=3, cells=[0, 1, 1, 1], grid=[0, 1, 2]), dict(n=3, k=2, cells=[0, 4, 4], grid=list(range(5)), measure=1),
          dict(n=3, k=2, cells=[5, 0, 9], grid=list(range(10)), measure=1)]
    if t != 'quick':
        c += [dict(n=4, k=2, cells=[0, 0, 1, 2], grid=[0, 1, 2]), dict(n=4, k=3, cells=[0, 1, 1, 3], grid=[0, 1, 2, 3])]
    return c


HARNESSES = [
    Harness('place', h_place, c_place, bounds='1..3 (thorough 4) craters from up to 4 (thorough 5) candidates, inside or outside, at all distances, on several grid assignments'),
    Harness('batch', h_batch, lambda t: [dict(n=3, hits=[1, 3], share=2.), dict(n=5, hits=[2, 1, 4], share=8.), dict(n=1, hits=[0, 1], share=1.), dict(n=4, hits=[9], share=3.)], bounds='1..3 batches of candidates'),
    Harness('uniform', h_uniform, lambda t: [dict(n=1, yr=(-10., 40.)), dict(n=2, yr=(-90., -60.)), dict(n=1, yr=(-90., 90.)), dict(n=2, yr=(5., 6.))], bounds='1..2 points, all longitude ranges, 4 latitude ranges, all draws'),
    Harness('box', h_box, bounds='all longitude and latitude limits, with either, both or none of the poles'),
    Harness('neighbour', h_neighbour, c_neigh, bounds='3..4 craters at all distances, k 1..3, several (thorough: all) assignments to 3 grid cells'),
    Harness('areas', h_areas, lambda t: [dict(n=k) for k in ((2, 4) if t == 'quick' else (2, 3, 4, 5))], bounds='2..4 craters, all areas of their cells'),
    Harness('stats', h_stats, lambda t: [dict(bins={'m2cnd': ['-1']}, trials=2), dict(bins={'m2cnd': ['-1'], 'sdaa': ['0.5']}, trials=2), dict(bins={'sdaa': ['0', '1']}, trials=2), dict(bins={'m2cnd': ['0']}, trials=3)],
            bounds='1..2 bins and measures, 2..3 trials with all values, all observed measures'),
    Harness('bin', h_bin, lambda t: [dict(n=1, range=(.2, .6), cells=[0]), dict(n=2, range=(1.1, 2.7), cells=[0, 1]), dict(n=3, range=(.6, 1.3), cells=[0, 1, 0]), dict(n=4, range=(1.05, 1.35), cells=[0, 0, 0, 0])] + ([dict(n=4, range=(2.1, 5.), cells=[1, 1, 0, 1])] if t != 'quick' else []),
            bounds='1..3 (thorough 4) craters with all diameters in about a factor of two'),
    Harness('trials', h_trials, lambda t: [dict(trials=T, workers=W, bins=b) for T, W, b in ((3, 2, [(1., 4)]), (4, 3, [(1., 5), (2., 3)]), (2, 1, [(1., 3), (1., 3)]), (6, 7, [(.5, 9)]))],
            bounds='2..6 trials in 1..2 bins, every distribution over 1..7 worker processes, copied or started anew'),
    Harness('run', h_run, lambda t: [dict(measure=e, stored=s, bins=b) for e in ('m2cnd', 'sdaa') for s in ([], ['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa']) for b in ([(0, 4), (1, 2), (3, 5)], [(-3, 4)])],
            bounds='1..1000 trials asked for and stored, with trials of either, both or no measure stored'),
    Harness('limits', h_limits, lambda t: [dict(cpus=k) for k in (None, 1, 2, 64)] + [dict(n=n, area=a) for n in (1, 10, 300, 3000) for a in ((1e-2, 1e2), (1e2, 1e5), (1e5, 37.9e6))], bounds='1..64 processors; areas from 0.01 km2 to a whole Moon, 1..3000 trials'),
]
ASSUMPTIONS = ['distances and containment are free values (not restricted to those of real spheres), the search grid returns every cell with a crater in the cone and possibly others',
               'numpy.random gives different numbers for different (sequence, position)']

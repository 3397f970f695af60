"""stand-ins for the geometry libraries (S2, shapely, pyproj, pyshp), which are compiled code"""
from harness.P24 import Any


class Poly:
    def __init__(self, shell, holes=None):
        self.shell, self.holes = list(shell), [list(h) for h in (holes or [])]


class Multi:
    def __init__(self, polys):
        self.polys = list(polys)


def box(I, pts):
    x, y = [p[0] for p in pts], [p[1] for p in pts]
    m = lambda v: (smallest(v), -smallest([-e for e in v]))
    return m(x) + m(y)


def smallest(v):
    r = v[0]
    for e in v[1:]:
        if bool(e < r):
            r = e
    return r


class Sph(Any):
    """spherely: polygons keep their rings; areas and perimeters come from the harness"""

    def __init__(self, I, **k):
        self.__dict__.update(k, I=I, made=[])

    def create_polygon(self, shell=None, holes=None, **k):
        p = Poly(shell, holes)
        self.made.append(p)
        return p

    def create_multipolygon(self, p, **k):
        return Multi(p)

    def create_point(self, longitude=None, latitude=None, **k):
        return (longitude, latitude)

    def within(self, a, b):
        if self.I is not None and 'inside' in self.__dict__:
            return self.inside(a, b)
        p, q = box(self.I, a.shell), box(self.I, b.shell)
        return all(bool(c) for c in (p[0] > q[0], p[1] < q[1], p[2] > q[2], p[3] < q[3]))

    def contains(self, a, b):
        return self.within(b, a)

    covers = contains
    covered_by = within

    def area(self, p, radius=None, **k):
        return self.area_of(p, radius)

    def perimeter(self, p, radius=None, **k):
        return self.perimeter_of(p, radius)


def same_points(I, got, want, label, eq=None):
    I.check(len(got) == len(want), label + ': number of vertices')
    eq = eq or (lambda a, b: a == b)
    I.check(I.all([I.all([eq(g[0], w[0]), eq(g[1], w[1])]) for g, w in zip(got, want)]), label)


def ring_matches(I, got, want, eq):
    """the same closed ring"""
    if len(got) != len(want):
        return False
    return bool(I.all([I.all([eq(g[0], w[0]), eq(g[1], w[1])]) for g, w in zip(got, want)]))

"""Shared Hypothesis strategies (JSON-able values, no subnormal noise)."""
import math
from hypothesis import strategies as st


def fl(lo, hi, digits=6):
    """Floats in [lo, hi]: generic, coarse-grid and end-point values."""
    span = hi-lo

    def rnd(x):
        x = round(x, digits)
        return min(max(x, lo), hi)
    n = 10**digits
    gen = st.integers(0, n).map(lambda k: rnd(lo+span*k/n))
    return st.one_of(gen, gen, gen,
                     st.floats(lo, hi, allow_nan=False, allow_subnormal=False).map(rnd),
                     st.integers(0, 16).map(lambda k: rnd(lo+span*k/16)))


@st.composite
def pick(draw, *pairs):
    """One of several strategies with integer weights (one_of drops duplicates): pick((3, a), (1, b))."""
    k = draw(st.integers(0, sum(w for w, _ in pairs)-1))
    for w, s in pairs:
        if k < w:
            return draw(s)
        k -= w


def degree(*pairs):
    """Integers with weights per value: degree((4, 2, 7), (1, 0, 13)) - four times 2..7, once 0..13."""
    o = []
    for w, lo, hi in pairs:
        o += list(range(lo, hi+1))*w
    return st.sampled_from(o)


def pos(lo=0.05, hi=4.0):
    """Positive sizes over a couple of decades."""
    return st.one_of(fl(lo, hi), fl(lo, hi),
                     st.sampled_from([x for x in (0.05, 0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0)
                                      if lo <= x <= hi]))


PI = math.pi
SPECIAL = [0.0, PI/6, PI/4, PI/3, PI/2, 2*PI/3, PI, 3*PI/2, 2*PI,
           -PI/2, -PI, -PI/4, -2*PI, 5*PI/2, 3*PI, -3*PI]


def angle(lo=-10.0, hi=10.0):
    """Generic and special angles, sometimes barely off a special one or several turns away."""
    sp = [a for a in SPECIAL if lo <= a <= hi] or [0.5*(lo+hi)]
    gen = fl(lo, hi)
    s = st.sampled_from(sp)
    off = st.tuples(s, st.sampled_from([1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2]), st.booleans()).map(
        lambda t: t[0]+(t[1] if t[2] else -t[1]))
    return pick((8, gen), (4, s), (1, off), (1, fl(-60.0, 60.0)))


def mass(neg=True):
    m = pos(0.05, 5.0)
    if neg:
        return st.one_of(m, m, m, m.map(lambda v: -v), st.just(0.0))
    return m


def vec(r=3.0, small=None):
    c = fl(-r, r)
    axis = st.tuples(st.integers(0, 2), c).map(
        lambda t: [t[1] if i == t[0] else 0.0 for i in range(3)])
    plane = st.tuples(st.integers(0, 2), c, c, st.booleans()).map(
        lambda t: (lambda o: o[:t[0]]+[0.0]+o[t[0]:])([t[1], t[1] if t[3] else t[2]]))
    full = st.lists(c, min_size=3, max_size=3)
    return pick((10, full), (2, axis), (2, plane), (2, near_axis(r, small)), (1, c.map(lambda x: [x, x, x])))


SMALL = [1e-18, 1e-16, 1e-12, 1e-9, 3e-8, 1e-7, 2e-7, 4e-7, 1e-6, 1e-5, 1e-4, 1e-3]


COARSE = [1e-18, 1e-16, 1e-12, 1e-4, 1e-3]   # where arccos(z/r) costs no accuracy worth mentioning


def unit():
    """Mostly 1, sometimes another unit of length."""
    return st.sampled_from([1.0]*6+[1e-12, 1e-6, 1e-3, 0.0254, 1e3, 1e6])


def near_axis(r=3.0, small=None):
    """Vectors along an axis up to a tiny transverse component (rounding noise and slight misalignment)."""
    def f(t):
        i, c, u, v, s = t
        o = [s*u*r, s*v*r]
        o.insert(i, c)
        return o
    uv = st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.7])
    return st.tuples(st.sampled_from([0, 1, 2, 2, 2]), fl(-r, r), uv, uv, st.sampled_from(small or SMALL)).map(f)


def points(lo=1, hi=6, r=3.0, neg=True):
    """Nx4 [m, x, y, z] lists."""
    p = st.tuples(mass(neg), vec(r)).map(lambda t: [t[0]]+list(t[1]))
    return st.lists(p, min_size=lo, max_size=hi)


def direction(small=None):
    """Unit vectors incl. axes (never zero), as [x,y,z]."""
    def f(t):
        c, phi = t
        s = math.sqrt(max(0.0, 1-c*c))
        return [s*math.cos(phi), s*math.sin(phi), c]
    def unit(v):
        n = math.sqrt(sum(x*x for x in v))
        return [x/n for x in v] if n > 1e-6 else [0., 0., 1.]
    g = st.tuples(fl(-1, 1), fl(-PI, PI)).map(f)
    ax = st.sampled_from([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.]])
    return pick((4, g), (1, ax), (1, near_axis(1.0, small).map(unit)))


def shell_points(lo, hi, rmin, rmax, neg=True):
    """Points with rmin <= r <= rmax, as Nx4 lists."""
    p = st.tuples(mass(neg), fl(rmin, rmax), direction()).map(
        lambda t: [t[0]]+[t[1]*c for c in t[2]])
    return st.lists(p, min_size=lo, max_size=hi)


@st.composite
def spread(draw, P):
    """Sometimes move some points much further out or in, or make them much heavier or lighter."""
    if draw(st.integers(0, 4)):
        return P
    f = st.sampled_from([1.0, 1.0, 1.0, 10.0, 100.0, 300.0, 3e3, 1e5, 0.01, 1e-3])
    g = st.sampled_from([1.0, 1.0, 1.0, 1e3, 1e6, 1e-3, 1e-6])
    o = []
    for p in P[:8]:
        s = draw(f)
        o.append([p[0]*draw(g)]+[s*x for x in p[1:]])
    return o+P[8:]


@st.composite
def table(draw, Lmin=0, Lmax=6, decay=1.0):
    """A moment table obeying q(l,-m) = (-1)^m conj q(l,m): dict(L, v) where v is a
    flat list of the real parameters (see common.mk_table)."""
    L = draw(st.integers(Lmin, Lmax))
    if draw(st.integers(0, 3)) == 0:
        # sparse: a few non-zero entries
        n = draw(st.integers(1, 4))
        ent = [[draw(st.integers(0, L)), draw(fl(0, 1)), draw(fl(-2, 2)), draw(fl(-2, 2))] for _ in range(n)]
        t = dict(L=L, sparse=ent)
    else:
        t = dict(L=L, seed=draw(st.integers(0, 10**6)))
    if draw(st.integers(0, 2)) == 0:
        t['s'] = draw(st.sampled_from([1e-30, 1e-15, 1e-9, 1e-5, 1e4, 1e12]))
    return t

"""Things every check module needs."""
import math
import numpy as np
import hypothesis.strategies as st
from vh import Check, Violation
import ref
import gen

EPS = np.finfo(float).eps


def laid_out(a):
    """The same array in one of several memory layouts, chosen from its contents."""
    if a.ndim != 2 or a.size == 0:
        return a
    k = int(np.frombuffer(np.ascontiguousarray(a).tobytes(), np.uint8).astype(np.int64).sum()) % 5
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        big = np.zeros((2*a.shape[0], a.shape[1]+1), a.dtype)
        big[::2, 1:] = a
        return big[::2, 1:]
    return a


def arr(pts):
    return laid_out(np.array(pts, dtype=float))


def pole_err(v):
    """Bound on the angle error of computing theta = arccos(z/r) in doubles (on the axis as well: z*(1/r) may be 1-eps)."""
    v = np.atleast_2d(np.asarray(v, float))
    r = np.sqrt((v**2).sum(1))
    s = np.sqrt((v[:, :2]**2).sum(1))/np.where(r > 0, r, 1)
    return np.where(r == 0, 0.0, np.where(s == 0, 3.3e-8, 8*EPS/np.maximum(s, 3e-8)))


def tilt_err(*betas):
    """Bound on the error of a rotation built from cos(beta): a tilt near 0 or pi keeps only eps/sin(beta) of accuracy."""
    return sum(0.0 if abs(math.sin(b)) < 1e-14 else 4*EPS/max(abs(math.sin(b)), 1e-8) for b in betas)


def inner_tol(L, pts, rel=1e-11):
    pts = np.atleast_2d(np.asarray(pts, float))
    r = np.sqrt((pts[:, 1:4]**2).sum(1))
    dth = pole_err(pts[:, 1:4])
    t = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        t[l, :] = np.sum(np.abs(pts[:, 0])*r**l*(rel+(l+1)**1.5*dth))
    return t


def outer_tol(L, pts, rel=1e-11):
    pts = np.atleast_2d(np.asarray(pts, float))
    r = np.sqrt((pts[:, 1:4]**2).sum(1))
    dth = pole_err(pts[:, 1:4])
    t = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        t[l, :] = np.sum(np.abs(pts[:, 0])/r**(l+1)*(rel+(l+1)**1.5*dth))
    return t


def bulk(n, seed, r, neg):
    """A deterministic larger array derived from drawn integers."""
    g = np.random.default_rng(seed)
    p = np.column_stack([g.uniform(0.1, 3, n), g.uniform(-r, r, (n, 3))])
    if neg:
        p[::3, 0] *= -1
    return np.round(p, 6)


def snapshot(*arrays):
    return [np.array(a, copy=True) for a in arrays]


def unchanged(ctx, before, after, what):
    for b, a in zip(before, after):
        ctx.check(np.array_equal(b, a), f'{what}: an argument was modified')


def separate(a, b, dmin=0.02):
    """True when no point of a is within dmin of a point of b."""
    a, b = np.atleast_2d(a), np.atleast_2d(b)
    d = a[:, None, 1:4]-b[None, :, 1:4]
    return bool((np.sqrt((d**2).sum(-1)) >= dmin).all())


def mk_table(t, base=1.0):
    """Build the (L+1)x(2L+1) table described by gen.table; degree l is scaled by base**l."""
    L = t['L']
    q = np.zeros((L+1, 2*L+1), complex)
    if 'sparse' in t:
        for l, f, re, im in t['sparse']:
            m = int(round(f*l))
            q[l, L+m] = re if m == 0 else complex(re, im)
    else:
        g = np.random.default_rng(t['seed'])
        for l in range(L+1):
            q[l, L] = g.uniform(-1, 1)
            for m in range(1, l+1):
                q[l, L+m] = complex(*g.uniform(-1, 1, 2))
    for l in range(L+1):
        q[l] *= t.get('s', 1.0)*base**l
        for m in range(1, l+1):
            q[l, L-m] = (-1)**m*np.conj(q[l, L+m])
    return laid_out(q)


def to_unit(q, Q, u):
    """Inner and outer moments expressed in another unit of length (1 old unit = u new ones)."""
    f = np.longdouble(u)**np.arange(len(q))[:, None]
    f = f.astype(float)
    return q*f, Q/f/u


_GRID = {}


def sphere_grid(n):
    """Quadrature exact for spherical polynomials of degree 2n-1: points, weights."""
    if n not in _GRID:
        x, w = np.polynomial.legendre.leggauss(n)
        ph = 2*np.pi*np.arange(2*n)/(2*n)
        s = np.sqrt(1-x*x)
        P = np.stack([np.outer(s, np.cos(ph)), np.outer(s, np.sin(ph)),
                      np.outer(x, np.ones(2*n))], -1).reshape(-1, 3)
        W = np.outer(w, np.full(2*n, np.pi/n)).reshape(-1)
        _GRID[n] = (P, W, {})
    return _GRID[n]


def project_outer(L, field, rho, n):
    """Outer-moment table whose field equals `field` near the origin."""
    P, W, cache = sphere_grid(n)
    if L not in cache:
        cache[L] = ref.solid(L, P)*W
    f = field(rho*P)
    q = cache[L] @ f
    for l in range(L+1):
        q[l] *= (2*l+1)/(4*math.pi)/rho**l
    return q, np.abs(f).max()


def table_abs(q):
    """Largest entry of each degree."""
    return np.abs(q).max(1)

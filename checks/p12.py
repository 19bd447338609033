from common import *
from fractions import Fraction
from functools import lru_cache
import newt.clebschGordan as cg

check = Check('P12', 'All integer sextuples with j1, j2 <= 3 (full projections, invalid ones included) in blocks, '
              'random valid sextuples with j <= 11 and j <= 21, ones with few terms to j <= 60, invalid ones; oracle: Racah formula in exact integers.  '
              'Non-trivial: the exact coefficient is non-zero and j1, j2 >= 1.')
f = math.factorial


@lru_cache(None)
def exact(j1, j2, m1, m2, J, M):
    if abs(m1) > j1 or abs(m2) > j2 or abs(M) > J or M != m1+m2 or J > j1+j2 or J < abs(j1-j2):
        return 0.0
    pre = Fraction((2*J+1)*f(J+j1-j2)*f(J-j1+j2)*f(j1+j2-J), f(j1+j2+J+1))
    pre *= f(J+M)*f(J-M)*f(j1-m1)*f(j1+m1)*f(j2-m2)*f(j2+m2)
    s = Fraction(0)
    for k in range(0, j1+j2+1):
        ds = [k, j1+j2-J-k, j1-m1-k, j2+m2-k, J-j2+m1+k, J-j1-m2+k]
        if min(ds) < 0:
            continue
        den = 1
        for d in ds:
            den *= f(d)
        s += Fraction((-1)**k, den)
    v = pre*s*s
    return math.copysign(math.sqrt(v), s) if s else 0.0


def both(ctx, a, tol):
    w = exact(*a)
    for fn in (cg.cgCoeff, cg.cgCoeff2):
        ctx.close(ctx.call(fn, *a), w, tol, f'{fn.__name__}{tuple(a)}')
    return w


@check.clause(st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 10)).map(list), quick=250, thorough=400, shards=6)
def exhaustive_blocks(c, ctx):
    """One (j1, j2, J) block with every projection, in and out of range."""
    j1, j2, J = c
    ctx.nt(j1 >= 1 and j2 >= 1 and abs(j1-j2) <= J <= j1+j2)
    ctx.label('triangle' if abs(j1-j2) <= J <= j1+j2 else 'no-triangle')
    if not abs(j1-j2) <= J <= j1+j2:
        for m1 in (-j1, 0, j1):
            for m2 in (-j2, 0, j2):
                both(ctx, (j1, j2, m1, m2, J, m1+m2), 0)
        return
    for m1 in range(-j1, j1+1):
        for m2 in range(-j2, j2+1):
            both(ctx, (j1, j2, m1, m2, J, m1+m2), 1e-10)
            both(ctx, (j1, j2, m1, m2, J, m1+m2+1), 1e-10)
            both(ctx, (j1, j2, m1, m2, J, -m1-m2), 1e-10)


@st.composite
def sextuple(draw, jmax):
    j1, j2 = draw(st.integers(0, jmax)), draw(st.integers(0, jmax))
    J = draw(st.integers(abs(j1-j2), j1+j2))
    M = draw(st.integers(-J, J))
    lo, hi = max(-j1, M-j2), min(j1, M+j2)
    if lo > hi:
        m1 = draw(st.integers(-j1, j1))
        m2 = draw(st.integers(-j2, j2))
    else:
        m1 = draw(st.integers(lo, hi))
        m2 = M-m1
    return [j1, j2, m1, m2, J, M]


@check.clause(sextuple(11), quick=6000, thorough=60000, shards=2)
def valid(c, ctx):
    w = both(ctx, tuple(c), 1e-9)
    ctx.nt(w != 0 and c[0] and c[1])
    ctx.label('M<0' if c[5] < 0 else 'M>=0')


def size(j1, j2, m1, m2, J, M):
    """The sum of the magnitudes of Racah's terms: what rounding errors are relative to."""
    pre = Fraction((2*J+1)*f(J+j1-j2)*f(J-j1+j2)*f(j1+j2-J), f(j1+j2+J+1))
    pre *= f(J+M)*f(J-M)*f(j1-m1)*f(j1+m1)*f(j2-m2)*f(j2+m2)
    s = Fraction(0)
    for k in range(0, j1+j2+1):
        ds = [k, j1+j2-J-k, j1-m1-k, j2+m2-k, J-j2+m1+k, J-j1-m2+k]
        if min(ds) >= 0:
            s += Fraction(1, math.prod(f(d) for d in ds))
    return math.sqrt(pre*s*s)


@check.clause(sextuple(21), quick=3000, thorough=30000, shards=2)
def large(c, ctx):
    j1, j2, m1, m2, J, M = c
    ok = M == m1+m2
    tol = 2e-11*size(*c)+1e-13 if ok else 1e-13
    w = both(ctx, tuple(c), tol)
    ctx.nt(abs(w) > 10*tol and min(j1, j2) >= 8)
    ctx.label('large' if max(j1, j2) > 11 else 'small')


@st.composite
def stretched(draw, jmax):
    """A valid sextuple up to jmax whose sum has few terms: J, m1 or m2 near an end of its range."""
    j1, j2 = draw(st.integers(8, jmax)), draw(st.integers(0, jmax))
    lo, hi = abs(j1-j2), j1+j2
    near = draw(st.integers(0, 3))
    J = draw(gen.pick((2, st.just(min(hi, lo+near))), (3, st.just(max(lo, hi-near))), (2, st.integers(lo, hi))))
    m1 = draw(gen.pick((2, st.just(j1-near)), (1, st.just(near-j1)), (2, st.integers(-j1, j1))))
    a, b = max(-j2, -J-m1), min(j2, J-m1)
    if a > b:
        m1 = 0
        a, b = max(-j2, -J), min(j2, J)
    m2 = draw(gen.pick((1, st.just(a)), (1, st.just(b)), (2, st.integers(a, b))))
    return [j1, j2, m1, m2, J, m1+m2]


@check.clause(stretched(60), quick=1500, thorough=15000, shards=2)
def huge(c, ctx):
    """The factorials of such momenta are out of the range of doubles, the coefficients are not."""
    tol = 2e-10*size(*c)+1e-13
    w = both(ctx, tuple(c), tol)
    ctx.nt(abs(w) > 10*tol and max(c[:2]) > 21)
    ctx.label('beyond 21' if max(c[:2]) > 21 else 'up to 21')


@check.clause(st.tuples(sextuple(6), st.integers(0, 5), st.integers(-4, 4)).map(list), quick=2000, thorough=20000)
def perturbed(c, ctx):
    """A valid sextuple with one entry moved: mostly invalid, must be exact too."""
    a = list(c[0])
    a[c[1]] += c[2]
    if c[1] in (0, 1, 4):
        a[c[1]] = abs(a[c[1]])
    ctx.nt(c[2] != 0)
    both(ctx, tuple(a), 1e-9)


@check.clause(st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(-8, 8)).map(list), quick=120, thorough=200)
def orthonormal(c, ctx):
    j1, j2, M = c
    M = max(-(j1+j2), min(j1+j2, M))
    ctx.nt(j1 and j2)
    ms = [m for m in range(-j1, j1+1) if abs(M-m) <= j2]
    Js = [J for J in range(abs(j1-j2), j1+j2+1) if J >= abs(M)]
    for fn in (cg.cgCoeff, cg.cgCoeff2):
        C = np.array([[ctx.call(fn, j1, j2, m, M-m, J, M) for m in ms] for J in Js])
        ctx.close(C @ C.T, np.eye(len(Js)), 1e-10, f'{fn.__name__}: orthonormal rows at j1={j1}, j2={j2}, M={M}')

"""Comparing moment tables of solids with the quadrature models of lib/solids."""
from common import *
import solids as S


def table_of(nodes, L, mass=None, dens=None):
    """Reference inner table of the body of the given mass or density."""
    w = nodes.copy()
    V = w[:, 0].sum()
    w[:, 0] *= (mass/V if mass is not None else dens)
    return ref.inner(L, w), w


def inner_scale(w, L):
    r = np.sqrt((w[:, 1:]**2).sum(1)).max()
    M = np.abs(w[:, 0]).sum()
    return np.array([M*r**l for l in range(L+1)])


def compare_inner(ctx, got, nodes, L, what, mass=None, dens=None, rel=2e-14, grow=3.0, floor=1e-13):
    want, w = table_of(nodes, L, mass, dens)
    got = np.asarray(got)
    ctx.check(got.shape == (L+1, 2*L+1), lambda: f'{what}: shape {got.shape}, expected {(L+1, 2*L+1)}')
    sc = inner_scale(w, L)
    tol = np.array([[sc[l]*(floor+rel*grow**l)+1e-290]*(2*L+1) for l in range(L+1)])
    ctx.close(got, want, tol, what)
    return want


def outer_of(nodes, L, dens):
    w = nodes.copy()
    w[:, 0] *= dens
    return ref.outer(L, w), ref.outer_abs(L, w)


def wedge():
    """(phic, phih) with the full circle and small wedges well represented."""
    return st.tuples(gen.angle(-7, 7), st.one_of(gen.fl(0.02, math.pi), gen.fl(0.02, math.pi),
                                                st.sampled_from([math.pi, math.pi/2, math.pi/4, math.pi/3, 0.01, 1e-4, 1e-7])))


def size():
    return gen.pos(0.05, 4.0)


mass_s = st.one_of(gen.pos(0.05, 5.0), gen.pos(0.05, 5.0), gen.pos(0.05, 5.0).map(lambda v: -v))


@st.composite
def radii(draw, solid_ok=True):
    """(ri, ro) with 0 <= ri < ro."""
    ro = draw(size())
    k = draw(st.integers(0, 4))
    if k == 0 and solid_ok:
        return [0.0, ro]
    f = draw(gen.pick((10, gen.fl(0.02, 0.97)), (1, st.sampled_from([1e-2, 1e-3, 3e-4, 1e-4, 1e-5]))))
    return [ro*f, ro]


def signed(s):
    return st.one_of(s, s.map(lambda v: -v))




def compare_ach(ctx, fn, args, nodes, LMax, what, rho, extra=1.0):
    """Closed-form tables: degrees 0..min(5, LMax) right, table of the requested size, symmetric."""
    got = np.asarray(ctx.call(fn, LMax, rho, *args))
    ctx.check(got.shape == (LMax+1, 2*LMax+1), lambda: f'{what}: shape {got.shape}, expected {(LMax+1, 2*LMax+1)}')
    K = min(LMax, 5)
    want, w = table_of(nodes, K, dens=rho)
    sc = inner_scale(w, K)
    tol = np.array([[sc[l]*2e-12*extra+1e-290]*(2*K+1) for l in range(K+1)])
    ctx.close(got[:K+1, LMax-K:LMax+K+1], want, tol, what)
    if LMax > K:
        low = got[:K+1].copy()
        low[:, LMax-K:LMax+K+1] = 0
        ctx.check(not low.any(), lambda: f'{what}: values outside |m| <= 5 in the low-degree rows (degree {LMax})')
    ctx.check(np.isfinite(got).all(), lambda: f'{what}: non-finite entries')
    ctx.nt(LMax >= 2)
    ctx.label(f'LMax{"<5" if LMax < 5 else ("=5" if LMax == 5 else ">5")}')


LMAX = st.one_of(st.just(5), st.just(5), st.integers(2, 8), st.integers(0, 8))
rho_s = st.one_of(gen.pos(0.05, 5.0), gen.pos(0.05, 5.0), gen.pos(0.05, 5.0).map(lambda v: -v))


NEAR1 = [1.0, 1.0, 1.01, 0.993, 1.001, 0.9997, 1+1e-4, 1-1e-5, 1+1e-6, 1-1e-8, 1+1e-12]


@st.composite
def odd(draw, base, lengths=(), pairs=(), wedges=(), signs=()):
    """A case of `base`, sometimes made special: two lengths nearly in a simple ratio, a thin wall, nearly equal radii or
    widths, a wedge that nearly closes, a flat or long body, nearly mirrored vertices, or everything in another unit of length."""
    c = dict(draw(base))
    k = draw(st.integers(0, 9))
    n1 = draw(st.sampled_from(NEAR1))
    if k == 0 and len(lengths) > 1:
        i = draw(st.integers(0, len(lengths)-1))
        j = (i+draw(st.integers(1, len(lengths)-1))) % len(lengths)
        a, b = lengths[i], lengths[j]
        c[b] = math.copysign(abs(c[a])*draw(st.sampled_from([1.0, 1.0, 1.0, 2.0, 0.5, math.sqrt(3), 1/math.sqrt(3), math.sqrt(2)]))*n1, c[b])
    elif k == 1 and pairs:
        p = draw(st.sampled_from(pairs))
        lo, hi = sorted(c[p])
        f = min(n1, 1/n1) if n1 != 1 else 0.999
        v = [hi*f, hi]
        if p not in signs:
            c[p] = v[::-1] if c[p][0] > c[p][1] else v
        if p in signs and c[p][1] != 0:
            c[p] = [-c[p][1]*n1, c[p][1]]
    elif k == 2 and wedges:
        p = draw(st.sampled_from(wedges))
        c[p] = [c[p][0], math.pi*min(n1, 1/n1)]
    elif k == 4 and lengths:
        p = draw(st.sampled_from(lengths))
        c[p] *= draw(st.sampled_from([1e-4, 1e-3, 0.02, 30.0, 200.0, 2e3]))
    elif k == 3:
        u = draw(gen.unit())
        for p in tuple(lengths)+tuple(pairs):
            c[p] = [u*x for x in c[p]] if isinstance(c[p], (list, tuple)) else u*c[p]
    return c

from common import *
import mpmath
import newt.pg2Multi as pgm
from p04 import cloud, offaxis

check = Check('P06', 'Point arrays (points at the origin included), lambda log-uniform so that r/lambda covers '
              '1e-3..200, degree 0-15; non-trivial: degree >= 1 and an off-axis point of non-zero mass.')


def il(l, x):
    """Modified spherical Bessel function of the first kind."""
    if x == 0:
        return 1.0 if l == 0 else 0.0
    with mpmath.workdps(25):
        x = mpmath.mpf(x)
        return float(mpmath.sqrt(mpmath.pi/(2*x))*mpmath.besseli(l+mpmath.mpf(1)/2, x))


def yref(L, P, lm):
    r = np.sqrt((P[:, 1:]**2).sum(1))
    u = P[:, 1:]/np.where(r > 0, r, 1)[:, None]
    S = np.conj(ref.solid(L, u))
    S[0, L, :] = 1/math.sqrt(4*math.pi)
    B = np.array([[il(l, x/lm) for x in r] for l in range(L+1)])
    dth = pole_err(P[:, 1:])
    q = np.einsum('lmi,li,i->lm', S, B, P[:, 0])
    tol = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        tol[l] = np.sum(np.abs(P[:, 0])*B[l]*(3e-10*(1+r/lm)+(l+1)**1.5*dth))
    return q, tol+1e-290


lmb = gen.fl(-1.0, 3.0).map(lambda e: float(f'{10**e:.6g}'))


@st.composite
def case(draw, Lmax):
    P = draw(cloud())
    if len(P) > 12:
        P = P[:12]
    L = draw(st.integers(0, Lmax))
    R = max(math.hypot(*p[1:]) for p in P) or 1.0
    # r/lambda up to about 200
    lm = draw(gen.pick((8, lmb), (3, st.sampled_from([0.1, 0.5, 1.0, 2.0, 10.0])), (2, st.sampled_from([3e3, 2e4, 1e5, 1e6, 2e9]))))*R/20
    return dict(p=P, L=L, lm=float(f'{lm:.8g}'), f=draw(gen.fl(-1, 1)))


@check.clause(case(10), quick=1000, thorough=10000, shards=4)
def table(c, ctx):
    P, L, lm = arr(c['p']), c['L'], c['lm']
    q, tol = yref(L, P, lm)
    b = P.copy()
    ctx.nt(L >= 1 and offaxis(c['p']))
    ctx.label('origin' if (np.abs(P[:, 1:]).sum(1) == 0).any() else 'no-origin')
    got = ctx.call(pgm.imoments, L, lm, P)
    unchanged(ctx, [b], [P], 'imoments')
    ctx.close(got, q, tol, f'imoments({L}, {lm})')


@check.clause(case(15), quick=1000, thorough=10000, shards=4)
def single(c, ctx):
    P, l, lm = arr(c['p']), c['L'], c['lm']
    m = int(round(c['f']*l))
    q, tol = yref(l, P, lm)
    ctx.nt(l >= 1 and offaxis(c['p']))
    ctx.label('m<0' if m < 0 else 'm>=0')
    b = P.copy()
    for mm in (m, -m):
        ctx.close(ctx.call(pgm.imoment, l, mm, lm, P), q[l, l+mm], tol[l, 0], f'imoment({l},{mm},{lm})')
    unchanged(ctx, [b], [P], 'imoment')


@check.clause(st.fixed_dictionaries(dict(p=gen.shell_points(1, 2, 0.3, 3.0), L=st.integers(16, 40), lm=st.sampled_from([0.05, 0.3, 1.0, 5.0]))),
              quick=48, thorough=600, shards=2)
def high_degree(c, ctx):
    P, L, lm = arr(c['p']), c['L'], c['lm']
    q, tol = yref(L, P, lm)
    ctx.nt(offaxis(c['p']))
    ctx.close(ctx.call(pgm.imoments, L, lm, P), q, tol, f'imoments({L}, {lm})')

from common import *
import newt.multipoleLib as mplb

check = Check('P13', 'Inner tables of bodies (1-5 points), arbitrary symmetric outer tables and tables of sources, degree '
              '0-7, body positions generic/axial/at the origin.  Non-trivial: degree >= 1, body and field both non-zero.')

posn = gen.pick((6, gen.vec(1.0)), (3, gen.vec(3.0)), (2, gen.near_axis(2.0)), (2, gen.vec(1e-3)), (1, gen.vec(1e-9)), (2, st.just([0.0, 0.0, 0.0])))


def reference(P, Q, x, cnst):
    """Force of the truncated field Q on the points P displaced by x, and its natural size."""
    L = len(Q)-1
    X = P[:, 1:]+np.asarray(x)
    g = ref.outer_field_grad(Q, X)
    F = cnst*(P[:, :1]*g).sum(0)
    r = np.sqrt((P[:, 1:]**2).sum(1))+np.linalg.norm(x)
    a = table_abs(Q)
    s = sum(np.sum(np.abs(P[:, 0])*r**(l-1))*a[l]*4*math.pi*(2*l+1) for l in range(1, L+1))
    return F, abs(cnst)*s


@check.clause(st.fixed_dictionaries(dict(p=gen.points(1, 4, r=1.5), t=gen.pick((5, gen.table(0, 7)), (1, gen.table(8, 14))), x=posn, base=st.sampled_from([1.0, 0.4]), u=gen.unit(),
                                         k=st.sampled_from([None, None, 1.0, -2.5, 6.674e-11]))),
              quick=1750, thorough=15000, shards=6, near=('x', 'p'))
def force(c, ctx):
    P, x = arr(c['p']), c['x']
    Q = mk_table(c['t'], c['base'])
    L = len(Q)-1
    q = ref.inner(L, P)
    k = ref.G if c['k'] is None else c['k']
    F, s = reference(P, Q, x, k)
    u = c['u']
    q, Q = to_unit(q, Q, u)
    b = snapshot(q, Q)
    args = (L, q, Q)+tuple(v*u for v in x)
    f = ctx.call(mplb.multipole_force, *args) if c['k'] is None else ctx.call(mplb.multipole_force, *args, cnst=k)
    ctx.nt(L >= 1 and s > 0)
    ctx.label('origin' if not any(x) else ('z-axis' if not any(x[:2]) else 'off-axis'))
    tol = 1e-11*(1+L)**2*s+1e-300
    ctx.close(np.asarray(f)*u**2, F, tol, f'multipole_force at {x}, degree {L}, unit {u}')
    fm = ctx.call(mplb.multipole_force_m, *args) if c['k'] is None else ctx.call(mplb.multipole_force_m, *args, cnst=k)
    fm = np.asarray(fm)*u**2
    ctx.check(fm.shape == (3, 2*L+1), lambda: f'multipole_force_m: shape {fm.shape}')
    ctx.close(fm.sum(1), F, tol, f'sum over orders of multipole_force_m at {x}, degree {L}')
    unchanged(ctx, b, [q, Q], 'multipole_force')


@check.clause(st.fixed_dictionaries(dict(p=gen.points(1, 4, r=0.5), s=gen.shell_points(1, 4, 6.0, 12.0), x=gen.vec(0.5))),
              quick=300, thorough=2500, shards=3)
def separated_bodies(c, ctx):
    """The multipole force converges to the pairwise force."""
    P, S, x = arr(c['p']), arr(c['s']), np.array(c['x'])
    L = 8
    f = ctx.call(mplb.multipole_force, L, ref.inner(L, P), ref.outer(L, S), *c['x'])
    M = ref.move(P, None, x)
    d = S[None, :, 1:]-M[:, None, 1:]
    r = np.sqrt((d**2).sum(-1))
    pair = ref.G*M[:, None, 0]*S[None, :, 0]/r**2
    F = (pair[..., None]*d/r[..., None]).sum((0, 1))
    ctx.nt(np.abs(pair).max() > 0)
    R = np.sqrt((S[:, 1:]**2).sum(1))
    D = np.sqrt((P[:, 1:]**2).sum(1))+np.linalg.norm(x)
    rat = D[:, None]/R[None, :]
    tail = (ref.G*np.abs(M[:, None, 0]*S[None, :, 0])/R[None, :]**2
            * (L+2)*rat**L/(1-rat)**2).sum()
    ctx.close(f, F, 2*tail+1e-11*np.abs(pair).sum(), 'force between separated bodies')


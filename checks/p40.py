from common import *
import newt.translationRecurs as trr
import p10, p11
from p09 import tolr

check = Check('P40', 'The coaxial operators themselves: signed distances along z including zero and both signs, degree 0-12, tables of bodies of '
              '1-5 points (regular), arbitrary conjugate-symmetric tables (singular, singular-to-regular), one to three operators in '
              'a row, left and right application.  Oracle: moments of the moved bodies; projections of the field of the moved table; '
              'adjointness of the two ways of applying an operator.  Non-trivial: degree >= 1 and a non-zero distance.')
fd = st.fixed_dictionaries
dist = gen.pick((4, gen.fl(-3, 3)), (2, gen.fl(-0.1, 0.1)), (1, st.sampled_from([0.0, 0.0, 1.0, -1.0, 1e-6, -1e-6, 1e-12, 40.0, -40.0])))
apart = gen.pick((3, gen.fl(0.3, 8.0)), (3, gen.fl(-8.0, -0.3)), (1, st.sampled_from([1.0, -1.0, 2.0, -2.0])))


@check.clause(fd(dict(p=gen.points(1, 5), ds=st.lists(dist, min_size=1, max_size=3), L=st.integers(0, 12), u=gen.unit())), quick=1500, thorough=30000, shards=2)
def regular(c, ctx):
    """R|R: inner moments of a body moved up or down the axis, once or several times."""
    P, L = arr(c['p']), c['L']
    P[:, 1:] *= c['u']
    ds = [d*c['u'] for d in c['ds']]
    q = ref.inner(L, P)
    cur = q.copy()
    for d in ds:
        M = ctx.call(trr.transl_newt_z_RR, L, d)
        ctx.check(len(M) == L+1, lambda: f'transl_newt_z_RR({L}, {d}): {len(M)} orders')
        b = [cur.copy(), *[m.copy() for m in M]]
        nxt = np.asarray(ctx.call(trr.apply_trans_mat, cur, M))
        unchanged(ctx, b, [cur, *M], 'apply_trans_mat')
        cur = nxt
    ctx.nt(L >= 1 and any(ds))
    ctx.label('zero' if 0.0 in ds else ('down' if min(ds) < 0 else 'up'), f'{len(ds)} moves')
    want = ref.inner(L, ref.move(P, None, [0.0, 0.0, sum(ds)]))
    ctx.close(cur, want, 3*tolr(L, P, [[0.0, 0.0, d] for d in ds], 1e-11), f'R|R by {ds}')


@check.clause(fd(dict(t=gen.table(0, 12), ds=st.lists(dist, min_size=1, max_size=3), base=st.sampled_from([1.0, 0.3, 2.0]))), quick=1200, thorough=20000, shards=3)
def singular(c, ctx):
    """S|S: the field of distant sources moved up or down the axis."""
    Q = mk_table(c['t'], c['base'])
    L = len(Q)-1
    cur = Q.copy()
    for d in c['ds']:
        M = ctx.call(trr.transl_newt_z_SS, L, d)
        cur = np.asarray(ctx.call(trr.apply_trans_mat, cur, M))
    ctx.nt(L >= 1 and any(c['ds']))
    ctx.label('zero' if 0.0 in c['ds'] else ('down' if min(c['ds']) < 0 else 'up'), f'{len(c["ds"])} moves')
    ds = [[0.0, 0.0, d] for d in c['ds']]
    want, err = p10.expect(Q, [0.0, 0.0, sum(c['ds'])])
    tol = np.repeat((3*p10.scales(Q, ds)+err)[:, None], 2*L+1, 1)+1e-300
    ctx.close(cur, want, tol, f'S|S by {c["ds"]}')


@check.clause(fd(dict(t=gen.table(0, 8), d=apart, base=st.sampled_from([1.0, 0.3, 0.1]))), quick=1200, thorough=20000, shards=3)
def outside(c, ctx):
    """S|R: the outer moments of a body above or below the origin."""
    d = c['d']
    q = mk_table(c['t'], c['base']*abs(d))
    L = len(q)-1
    M = ctx.call(trr.transl_newt_z_SR, L, d)
    got = np.asarray(ctx.call(trr.apply_trans_mat, q, M, True))
    ctx.nt(L >= 1)
    ctx.label('below' if d < 0 else 'above')
    v = [0.0, 0.0, d]
    want, err = p11.expect(q, v)
    tol = np.repeat((p11.scales(q, v)+err)[:, None], 2*L+1, 1)+1e-300
    ctx.close(got, want, tol, f'S|R by {d}')


@check.clause(fd(dict(t=gen.table(0, 10), any=st.booleans(), s=st.integers(0, 10**6), d=apart, k=st.sampled_from(['RR', 'SS', 'SR']), flip=st.booleans(), off=st.sampled_from([0]*5+[1, -1]))),
              quick=1200, thorough=20000)
def adjoint(c, ctx):
    """Applying an operator from the left to one table or from the right to the other pairs the two tables alike."""
    q = mk_table(c['t'])
    L = len(q)-1
    g = np.random.default_rng(c['s'])
    p = np.zeros_like(q)
    for l in range(L+1):
        p[l, L-l:L+l+1] = g.normal(size=2*l+1)+1j*g.normal(size=2*l+1)
        if c['any']:    # weighted tables, as the torques use them, are not conjugate-symmetric
            q[l, L-l:L+l+1] *= g.normal(size=2*l+1)+1j*g.normal(size=2*l+1)
    K = L+c['off']
    if K < 0:
        K = L+1
    M = ctx.call(getattr(trr, 'transl_newt_z_'+c['k']), K, c['d'])
    if K != L:
        ctx.label('mismatched')
        for f in (trr.apply_trans_mat, trr.apply_trans_mat_right):
            try:
                f(q, M, c['flip'])
            except ValueError:
                continue
            ctx.fail(f'{f.__name__} of degree {L} with an operator of degree {K} was accepted')
        return
    ctx.label(c['k'], 'flipped' if c['flip'] else 'straight')
    ctx.nt(L >= 1)
    a = np.asarray(ctx.call(trr.apply_trans_mat, q, M, c['flip']))
    b = np.asarray(ctx.call(trr.apply_trans_mat_right, p, M, c['flip']))
    sc = sum(np.abs(m).T @ np.abs(np.abs(p[i:, L+i])+np.abs(p[i:, L-i])) @ (np.abs(q[i:, L+i])+np.abs(q[i:, L-i])) for i, m in enumerate(M))
    ctx.check(abs(np.sum(p*a)-np.sum(b*q)) <= 1e-12*sc+1e-300, lambda: f'{c["k"]}({L}, {c["d"]}): pairing {np.sum(p*a)} from the left, {np.sum(b*q)} from the right')

from common import *
import newt.rotations as rot

check = Check('P07', 'Bodies (1-6 points) and synthetic moment tables, degree 0-30, Euler angles of any sign/size incl. '
              'special multiples of pi, histories of 1-4 rotations; non-trivial: degree >= 1 with an off-axis point '
              '(or generic table) and beta not a multiple of pi.')

eul = st.lists(st.one_of(gen.angle(), gen.angle(), gen.fl(-100, 100)), min_size=3, max_size=3)
deg = st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(0, 30))
BASE = st.sampled_from([1.0, 1.0, 1e-3, 1e-6, 1e3])


def rtol(L):
    return 1e-11*(1+L)**1.5


def ptol(L, P, kind):
    f = inner_tol if kind == 'in' else outer_tol
    return f(L, P, rtol(L))+1e-300


def ztol(*ang):
    """Rounding of large angles."""
    return 1+4*EPS*sum(abs(a) for a in ang)/1e-12


@check.clause(st.fixed_dictionaries(dict(p=gen.points(1, 6), L=deg, e=eul)), quick=1800, thorough=20000, shards=3, near=('e',))
def inner(c, ctx):
    P, L, e = arr(c['p']), c['L'], c['e']
    q = ref.inner(L, P)
    b = q.copy()
    got = ctx.call(rot.rotate_qlm, q, *e)
    ctx.nt(L >= 1 and abs(math.sin(e[1])) > 1e-3 and np.abs(P[:, 1:3]).max() > 0.01)
    ctx.label('beta<0' if e[1] < 0 else ('beta>pi' if e[1] > math.pi else 'beta in [0,pi]'))
    unchanged(ctx, [b], [q], 'rotate_qlm')
    R = ref.move(P, ref.euler(*e))
    t = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        t[l] = ref.inner_abs(L, P)[l]*(rtol(L)*ztol(*e)+tilt_err(e[1])*(1+l)**2)*(1+l)
    ctx.close(got, ref.inner(L, R), t+1e-300, f'rotate_qlm{tuple(e)}')


@check.clause(st.fixed_dictionaries(dict(p=gen.shell_points(1, 5, 1.0, 4.0), L=deg, e=eul)), quick=1000, thorough=10000, shards=2, near=('e',))
def outer(c, ctx):
    P, L, (a, be, g) = arr(c['p']), c['L'], c['e']
    q = ref.outer(L, P)
    got = ctx.call(rot.rotate_qlm, q, -a, be, -g)
    ctx.nt(L >= 1 and abs(math.sin(be)) > 1e-3)
    R = ref.move(P, ref.euler(a, be, g))
    t = np.repeat(ref.outer_abs(L, P)[:, None], 2*L+1, 1)*(rtol(L)*ztol(a, be, g)+tilt_err(be)*(1+L)**2)*(1+L)
    ctx.close(got, ref.outer(L, R), t+1e-300, f'outer moments rotated by {a, be, g}')


@check.clause(st.fixed_dictionaries(dict(t=gen.table(0, 10), base=BASE, es=st.lists(eul, min_size=1, max_size=4))),
              quick=1000, thorough=10000, shards=2)
def histories(c, ctx):
    q = mk_table(c['t'], c['base'])
    L = len(q)-1
    sc = 1e-300+np.repeat(np.abs(q).max(1)[:, None], 2*L+1, 1)     # rotations do not mix degrees
    E = np.eye(3)
    cur = q
    for e in c['es']:
        b = cur.copy()
        nxt = ctx.call(rot.rotate_qlm, cur, *e)
        unchanged(ctx, [b], [cur], 'rotate_qlm')
        ctx.close(np.sum(np.abs(nxt)**2, 1), np.sum(np.abs(cur)**2, 1), (1e-10+10*tilt_err(e[1])*(1+L)**2)*(1e-300+np.sum(np.abs(q)**2, 1)),
                  'norm of each degree')
        E = ref.euler(*e) @ E
        cur = np.asarray(nxt)
    # the same overall rotation in one step
    be = math.acos(max(-1, min(1, E[2, 2])))
    if math.sin(be) > 1e-3:
        al, ga = math.atan2(E[1, 2], E[0, 2]), math.atan2(E[2, 1], -E[2, 0])
    else:
        be = 0.0 if E[2, 2] > 0 else math.pi
        al, ga = (math.atan2(E[1, 0], E[0, 0]), 0.0) if E[2, 2] > 0 else (math.atan2(-E[1, 0], -E[0, 0]), 0.0)
        if np.abs(ref.euler(al, be, ga)-E).max() > 1e-9:
            return
    one = ctx.call(rot.rotate_qlm, q, al, be, ga)
    ctx.nt(L >= 1 and len(c['es']) > 1)
    big = max(1, max(abs(x) for e in c['es'] for x in e))
    dt = tilt_err(be, *[e[1] for e in c['es']])*(1+L)**2
    ctx.close(cur, one, (1e-9*big+dt)*(1+L)*sc, 'composition of rotations')
    back = cur
    for e in reversed(c['es']):
        back = ctx.call(rot.rotate_qlm, back, -e[2], -e[1], -e[0])
    ctx.close(back, q, (1e-10*big+2*dt)*(1+L)*sc, 'inverse rotations')


@check.clause(st.fixed_dictionaries(dict(t=gen.table(0, 12), base=BASE, e=eul)), quick=1000, thorough=10000, shards=2)
def precomputed_matrices(c, ctx):
    """rotate_qlm_Ds with the matrices of the same angles; conj_trans undoes it;
    rotate_qlm_Ds_right is the transpose action: sum (right q) p = sum q (rotated p)."""
    q = mk_table(c['t'], c['base'])
    L = len(q)-1
    sc = 1e-300+np.repeat(np.abs(q).max(1)[:, None], 2*L+1, 1)     # rotations do not mix degrees
    e = c['e']
    ds = ctx.call(rot.wignerDl, L, *e)
    keep = [np.array(d, copy=True) for d in ds]
    b = q.copy()
    tol = (1e-10+tilt_err(e[1])*(1+L)**2)*(1+L)*sc
    one = ctx.call(rot.rotate_qlm_Ds, q, ds)
    ctx.nt(L >= 1 and abs(math.sin(e[1])) > 1e-3)
    ctx.close(one, ctx.call(rot.rotate_qlm, q, *e), tol, 'rotate_qlm_Ds')
    ctx.close(ctx.call(rot.rotate_qlm_Ds, one, ds, True), q, tol, 'conj_trans undoes the rotation')
    g = mk_table(dict(L=L, seed=7))
    r = ctx.call(rot.rotate_qlm_Ds_right, g, ds)
    ctx.close(np.sum(np.asarray(r)*q), np.sum(g*np.asarray(one)), tol.max()*(L+1)**2, 'right multiplication is the transpose')
    r = ctx.call(rot.rotate_qlm_Ds_right, g, ds, True)
    inv = ctx.call(rot.rotate_qlm_Ds, q, ds, True)
    ctx.close(np.sum(np.asarray(r)*q), np.sum(g*np.asarray(inv)), tol.max()*(L+1)**2,
              'right multiplication (conj_trans) is the transpose')
    unchanged(ctx, [b]+keep, [q]+list(ds), 'rotate_qlm_Ds')


@check.clause(st.fixed_dictionaries(dict(p=gen.shell_points(1, 3, 0.3, 3.0), L=st.integers(31, 60), e=eul)), quick=40, thorough=600)
def high_degree(c, ctx):
    P, L, e = arr(c['p']), c['L'], c['e']
    got = ctx.call(rot.rotate_qlm, ref.inner(L, P), *e)
    ctx.nt(abs(math.sin(e[1])) > 1e-3)
    t = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        t[l] = ref.inner_abs(L, P)[l]*(rtol(L)*ztol(*e)+tilt_err(e[1])*(1+l)**2)*(1+l)
    ctx.close(got, ref.inner(L, ref.move(P, ref.euler(*e))), t+1e-300, f'rotate_qlm{tuple(e)} of degree {L}')

from common import *
import newt.multipoleLib as mplb

check = Check('P14', 'Bodies and sources (1-4 points each), degree 0-8, Euler angles, displacements zero/+z/-z/generic, all '
              'three translation types, 1-8 turntable angles.  Oracle: z-torque on the body points in the (exactly moved) '
              'truncated field.  Non-trivial: degree >= 1, non-zero torque at some angle.')

eul = st.lists(gen.angle(), min_size=3, max_size=3)
angles = st.one_of(st.lists(gen.angle(), min_size=1, max_size=5), st.lists(gen.fl(-50, 50), min_size=2, max_size=6))


def disp(r):
    z = gen.fl(r/20, r)
    gen_ = gen.direction().flatmap(lambda d: gen.fl(r/10, r).map(lambda s: [s*x for x in d]))
    return st.one_of(gen_, gen_, gen_, z.map(lambda v: [0.0, 0.0, v]), z.map(lambda v: [0.0, 0.0, -v]))


def zero_or(s):
    return st.one_of(s, s, s, s, st.just([0.0, 0.0, 0.0]))


def point_torque(P, Q, cnst):
    """z torque on points P in the truncated field of Q."""
    g = ref.outer_field_grad(Q, P[:, 1:]).real
    F = cnst*P[:, :1]*g
    return float((P[:, 1]*F[:, 1]-P[:, 2]*F[:, 0]).sum())


def tscale(P, Q, cnst):
    L = len(Q)-1
    r = np.sqrt((P[:, 1:]**2).sum(1))
    a = table_abs(Q)
    return abs(cnst)*sum(np.sum(np.abs(P[:, 0])*r**l)*a[l]*4*math.pi*(2*l+1) for l in range(1, L+1))


def rz(P, a):
    return ref.move(P, ref.rotm(a, [0, 0, 1]))


def spun_Q(Q, a):
    """Truncated outer moments of sources turned about z by a: Y picks up e^{+i m a}."""
    L = len(Q)-1
    return Q*np.exp(1j*np.arange(-L, L+1)*a)[None, :]


def field_moved(Q, R, d):
    """Truncated outer table of sources rotated by R then displaced by d (exact)."""
    L = len(Q)-1
    rho = max(np.linalg.norm(d), 1.0)
    return project_outer(L, lambda x: ref.outer_field(Q, (x-d) @ R), rho, L+2)


common = dict(u=gen.unit(), p=gen.points(1, 3, r=1.0), e=eul, th=angles, arr=st.booleans(),
              k=st.sampled_from([None, None, 1.0, -3.0]))


def kw(c):
    return {} if c['k'] is None else {'cnst': c['k']}


def signal(ctx, tc, ts, th, **k):
    before = snapshot(tc, ts, th)
    s = ctx.call(mplb.torques_at_angle, tc, ts, th, **k)
    unchanged(ctx, before, [tc, ts, th], 'torques_at_angle')
    # with degree 0 only there is no angle dependence: a constant is fine
    return np.broadcast_to(s, th.shape) if len(tc) == 1 and np.ndim(s) == 0 else s


def consistent(ctx, out, L, u=1.0):
    ctx.check(isinstance(out, tuple) and len(out) == 3, 'torque does not return (nlm, nc, ns)')
    n, c, s = [np.asarray(x) for x in out]
    ctx.check(n.shape == (L+1, 2*L+1) and c.shape == (L+1,) and s.shape == (L+1,),
              lambda: f'torque shapes {n.shape} {c.shape} {s.shape} for degree {L}')
    return n*u, c*u, s*u


@check.clause(st.fixed_dictionaries(dict(common, t=gen.table(0, 8), base=st.sampled_from([1.0, 0.3]))),
              quick=800, thorough=15000, shards=2)
def table_and_turntable(c, ctx):
    """torque_lm: total torque; torques_at_angle: body turned about z."""
    P = arr(c['p'])
    Q = mk_table(c['t'], c['base'])
    L = len(Q)-1
    q = ref.inner(L, P)
    k = ref.G if c['k'] is None else c['k']
    th = np.array(c['th'])
    (q, Q_), u = to_unit(q, Q, c['u']), c['u']
    b = snapshot(q, Q_)
    n, tc, ts = consistent(ctx, ctx.call(mplb.torque_lm, q, Q_, **kw(c)), L, u)
    unchanged(ctx, b, [q, Q_], 'torque_lm')
    s = tscale(P, Q, k)
    tol = 1e-11*s+1e-300
    want = point_torque(P, Q, k)
    ctx.close(n.sum(), want, tol, 'sum of the torque table')
    for l in range(L+1):
        Ql = np.zeros_like(Q)
        Ql[l] = Q[l]
        ctx.close(n[l].sum(), point_torque(P, Ql, k), tol, f'torque of degree {l}')
    ctx.close(n.sum(0)[L:][1:]+n.sum(0)[:L][::-1], tc[1:], tol, 'cosine coefficients')
    w = np.array([point_torque(rz(P, a), Q, k) for a in th])
    ctx.nt(L >= 1 and np.abs(w).max() > 1e-6*s)
    ctx.close(signal(ctx, tc, ts, th), w, tol*(1+np.abs(th).max()), 'torque with the body turned')
    # sources turned by the same angle
    w = np.array([point_torque(P, spun_Q(Q, a), k) for a in th])
    ctx.close(signal(ctx, tc, ts, th, outer=True), w, tol*(1+np.abs(th).max()), 'torque with the sources turned')


def ltol(P, Q, L, k):
    return 1e-10*(1+L)**2*tscale(P, Q, k)+1e-300


@check.clause(st.fixed_dictionaries(dict(common, t=gen.table(0, 8), base=st.sampled_from([1.0, 0.3]), d=zero_or(disp(2.0)))),
              quick=900, thorough=15000, shards=2, near=('e', 'd', 'p'))
def inner_inner(c, ctx):
    P, d, e = arr(c['p']), np.array(c['d']), c['e']
    Q = mk_table(c['t'], c['base'])
    L = len(Q)-1
    q = ref.inner(L, P)
    k = ref.G if c['k'] is None else c['k']
    th = np.array(c['th'])
    (q, Q_), u = to_unit(q, Q, c['u']), c['u']
    du = d*u
    b = snapshot(q, Q_, du)
    if c['arr']:
        out = ctx.call(mplb.torque, q, Q_, e, du, **kw(c))
    else:
        out = ctx.call(mplb.torque, q, Q_, e, du, 'inner-inner', **kw(c))
    unchanged(ctx, b, [q, Q_, du], 'torque')
    n, tc, ts = consistent(ctx, out, L, u)
    E = ref.euler(*e)
    at = lambda a: ref.move(rz(P, a), E, d)
    big = ref.move(P, None, None)
    big[:, 1:] = (np.sqrt((P[:, 1:]**2).sum(1))+np.linalg.norm(d))[:, None]/math.sqrt(3)
    tol = (ltol(big, Q, L, k)*(1+(pole_err(d)[0]+tilt_err(e[1]))*1e11))*(1+np.abs(th).max()/100)
    ctx.label('zero' if not d.any() else ('axial' if not d[:2].any() else 'generic'))
    w = np.array([point_torque(at(a), Q, k) for a in th])
    ctx.nt(L >= 1 and np.abs(w).max() > 1e-6*tscale(P, Q, k))
    ctx.close(n.sum(), point_torque(at(0.0), Q, k), tol, 'inner-inner: total torque')
    ctx.close(signal(ctx, tc, ts, th), w, tol, f'inner-inner, euler {e}, displacement {c["d"]}')


@check.clause(st.fixed_dictionaries(dict(common, t=gen.table(0, 8), base=st.sampled_from([1.0, 0.3]), d=zero_or(disp(1.5)))),
              quick=900, thorough=15000, shards=2, near=('e', 'd', 'p'))
def outer_outer(c, ctx):
    P, d, e = arr(c['p']), np.array(c['d']), c['e']
    Q = mk_table(c['t'], c['base'])
    L = len(Q)-1
    q = ref.inner(L, P)
    k = ref.G if c['k'] is None else c['k']
    th = np.array(c['th'])
    (q, Q_), u = to_unit(q, Q, c['u']), c['u']
    du = d*u
    b = snapshot(q, Q_, du)
    n, tc, ts = consistent(ctx, ctx.call(mplb.torque, q, Q_, e, du, 'outer-outer', **kw(c)), L, u)
    unchanged(ctx, b, [q, Q_, du], 'torque')
    E = ref.euler(*e)
    big = P.copy()
    big[:, 1:] = (np.sqrt((P[:, 1:]**2).sum(1))+np.linalg.norm(d)+1)[:, None]/math.sqrt(3)
    tol = (ltol(big, Q, L, k)*(1+(pole_err(d)[0]+tilt_err(e[1]))*1e11))*(1+np.abs(th).max()/100)
    ctx.label('zero' if not d.any() else ('axial' if not d[:2].any() else 'generic'))
    w = []
    for a in th:
        Qt, f = field_moved(spun_Q(Q, a), E, d)
        w.append(point_torque(P, Qt, k))
        tol += 1e-12*f*abs(k)*np.sum(np.abs(P[:, 0])*(1+np.sqrt((P[:, 1:]**2).sum(1)))**L)*(2*L+1)**2
    w = np.array(w)
    ctx.nt(L >= 1 and np.abs(w).max() > 1e-6*tscale(P, Q, k))
    ctx.close(signal(ctx, tc, ts, th, outer=True), w, tol, f'outer-outer, euler {e}, displacement {c["d"]}')


@check.clause(st.fixed_dictionaries(dict(common, t=gen.table(0, 7), d=disp(4.0))), quick=700, thorough=12000, shards=2, near=('e', 'd', 'p'))
def inner_outer(c, ctx):
    d, e = np.array(c['d']), c['e']
    D = np.linalg.norm(d)
    P = arr(c['p'])
    P[:, 1:] *= D/4
    s = mk_table(c['t'], D/4)          # inner moments of the source about its own centre
    L = len(s)-1
    q = ref.inner(L, P)
    k = ref.G if c['k'] is None else c['k']
    th = np.array(c['th'])
    u = c['u']
    q, s_, du = to_unit(q, q, u)[0], to_unit(s, s, u)[0], d*u
    b = snapshot(q, s_, du)
    n, tc, ts = consistent(ctx, ctx.call(mplb.torque, q, s_, e, du, 'inner-outer', **kw(c)), L, u)
    unchanged(ctx, b, [q, s_, du], 'torque')
    E = ref.euler(*e)
    ctx.label('axial+' if not d[:2].any() and d[2] > 0 else ('axial-' if not d[:2].any() else 'generic'))
    w, sc = [], 0
    for a in th:
        sa = s*np.exp(-1j*np.arange(-L, L+1)*a)[None, :]     # source turned about its z
        Qt, f = project_outer(L, lambda x: ref.inner_field(sa, (x-d) @ E), D/6, 16)
        w.append(point_torque(P, Qt, k))
        sc = max(sc, tscale(P, Qt, k), f*abs(k)*np.abs(P[:, 0]).sum())
    w = np.array(w)
    ctx.nt(L >= 1 and np.abs(w).max() > 1e-6*sc)
    tol = (1e-9*(1+L)**2*sc*(1+(pole_err(d)[0]+tilt_err(e[1]))*1e10)+1e-300)*(1+np.abs(th).max()/100)
    ctx.close(signal(ctx, tc, ts, th), w, tol, f'inner-outer, euler {e}, displacement {c["d"]}')


@check.clause(st.fixed_dictionaries(dict(common, t=gen.table(1, 4), base=st.just(1.0), d=disp(1.5),
                                         seq=st.lists(st.tuples(st.integers(0, 2), st.booleans(), st.booleans()).map(list), min_size=2, max_size=4))),
              quick=300, thorough=6000, shards=4)
def sequences(c, ctx):
    """Several torques in one session with the same or nearly the same angles and displacements."""
    for kind, e, d in c['seq']:
        k = dict(c)
        if e:
            k['e'] = [x*(1+1e-4) for x in c['e']]
        if d:
            k['d'] = c['d'][::-1]
        (inner_inner, outer_outer, inner_outer)[kind](k, ctx)


@check.clause(st.fixed_dictionaries(dict(p=gen.points(1, 3, r=1.0), s=gen.shell_points(1, 3, 6.0, 12.0), th=angles)),
              quick=200, thorough=4000)
def separated_bodies(c, ctx):
    """Converges to the pairwise z torque."""
    P, S, th = arr(c['p']), arr(c['s']), np.array(c['th'])
    L = 14
    n, tc, ts = ctx.call(mplb.torque_lm, ref.inner(L, P), ref.outer(L, S))
    w, sc = [], 0
    for a in th:
        M = rz(P, a)
        d = S[None, :, 1:]-M[:, None, 1:]
        r = np.sqrt((d**2).sum(-1))
        f = ref.G*M[:, None, 0, None]*S[None, :, 0, None]*d/r[..., None]**3
        w.append((M[:, None, 1]*f[..., 1]-M[:, None, 2]*f[..., 0]).sum())
        sc = max(sc, np.abs(f).sum())
    R = np.sqrt((S[:, 1:]**2).sum(1))
    D = np.sqrt((P[:, 1:]**2).sum(1))
    rat = D[:, None]/R[None, :]
    tail = (ref.G*np.abs(P[:, None, 0]*S[None, :, 0])/R[None, :]*(L+2)*rat**(L+1)/(1-rat)**2).sum()
    ctx.nt(sc > 0)
    ctx.close(signal(ctx, tc, ts, th), np.array(w), 2*tail+1e-10*sc, 'torque between separated bodies')


@check.clause(st.sampled_from(['inner', 'outer', 'outer-inner', '', 'Inner-Inner', 'inner_outer']), quick=6, thorough=20)
def unknown_type_rejected(c, ctx):
    ctx.nt()
    q = mk_table(dict(L=3, seed=1))
    try:
        mplb.torque(q, q, [0, 0, 0], [0, 0, 1.0], c)
    except ValueError:
        return
    ctx.fail(f'unsupported translation type {c!r} was accepted')

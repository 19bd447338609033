from common import *
import contextlib, io
import gridmodel as G
import newt.glibShapes as gs

check = Check('P24', 'All 13 grid generators with unequal dimensions and unequal per-axis counts (4 to 14, rarely up to 36, enough to resolve the thinnest '
              'part), both signs of mass.  Oracle: the distinct coordinates give a uniform lattice per axis; every site of that lattice '
              '(extended over the whole bounding box) strictly inside the documented solid must be present exactly once and no '
              'returned point may lie outside; equal masses add up; steps match the requested counts; low moments near the solid\'s; '
              'mirror symmetric solids give mirror symmetric centroids.  Non-trivial: at least 8 points and unequal dimensions or counts.')
fd = st.fixed_dictionaries
sz = gen.pos(0.2, 3.0)
nn = gen.degree((20, 4, 14), (1, 15, 36))
mass_nonzero = st.one_of(gen.pos(0.05, 5.0), gen.pos(0.05, 5.0), gen.pos(0.05, 5.0).map(lambda v: -v))
beta_s = st.one_of(gen.fl(0.3, math.pi), gen.fl(0.3, 1.5), gen.fl(1.6, math.pi), st.sampled_from([math.pi, math.pi/2, math.pi/3]))


@st.composite
def ring(draw):
    ro = draw(sz)
    return [draw(st.one_of(st.just(0.0), gen.fl(0.02, 0.7)))*ro, ro]


@st.composite
def ys(draw):
    a, d = draw(gen.fl(-2.5, 2.0)), draw(gen.fl(0.6, 3.0))
    return draw(gen.pick((7, st.just([a, a+d])), (1, st.just([-d/2, d/2])), (1, st.just([0.0, d])), (1, st.just([-d, 0.0]))))


shape = st.one_of(
    fd(dict(s=st.just('sphere'), R=sz)), fd(dict(s=st.just('rectangle'), x=sz, y=sz, z=sz)),
    fd(dict(s=st.just('annulus'), r=ring(), t=sz)), fd(dict(s=st.just('cone'), R=sz, H=sz, b=beta_s)),
    fd(dict(s=st.just('wedge'), r=ring(), t=sz, b=beta_s)), fd(dict(s=st.just('trapezoid'), r=ring(), t=sz, b=gen.fl(0.2, 1.4))),
    fd(dict(s=st.just('outer_cone'), r=ring(), H=sz, b=beta_s)), fd(dict(s=st.just('tri_prism'), d=sz, y=ys(), t=sz)),
    fd(dict(s=st.just('tetrahedron'), d=sz, y=ys(), t=sz)), fd(dict(s=st.just('ngon_prism'), H=sz, a=sz, N=gen.degree((6, 3, 9), (1, 10, 24)))),
    fd(dict(s=st.just('pyramid'), x=sz, y=sz, z=sz)), fd(dict(s=st.just('cylhole'), R=sz, f=st.one_of(gen.fl(0.1, 1.0), st.just(1.0)))),
    fd(dict(s=st.just('platehole'), t=sz, r=sz, b=gen.pick((8, gen.fl(-1.2, 1.2)), (1, st.sampled_from([0.0, 1e-9, 1e-6, 1e-4, 0.01])), (1, st.sampled_from([-1e-9, -1e-6, -1e-4, -0.01]))))))


def build(c, m, nx, ny, nz):
    """(name, function, args, solid, counts per axis)"""
    s = c['s']
    if s == 'sphere':
        return gs.sphere, (m, c['R'], nx), G.sphere(c['R']), (nx, nx, nx)
    if s == 'rectangle':
        return gs.rectangle, (m, c['x'], c['y'], c['z'], nx, ny, nz), G.rectangle(c['x'], c['y'], c['z']), (nx, ny, nz)
    if s == 'annulus':
        return gs.annulus, (m, *c['r'], c['t'], nx, nz), G.wedge(*c['r'], c['t'], math.pi), (nx, nx, nz)
    if s == 'cone':
        return gs.cone, (m, c['R'], c['H'], c['b'], nx, nz), G.cone(c['R'], c['H'], c['b']), (nx, nx, nz)
    if s == 'wedge':
        return gs.wedge, (m, *c['r'], c['t'], c['b'], nx, nz), G.wedge(*c['r'], c['t'], c['b']), (nx, nx, nz)
    if s == 'trapezoid':
        return gs.trapezoid, (m, *c['r'], c['t'], c['b'], nx, nz), G.trapezoid(*c['r'], c['t'], c['b']), (nx, nx, nz)
    if s == 'outer_cone':
        return gs.outer_cone, (m, *c['r'], c['H'], c['b'], nx, nz), G.outer_cone(*c['r'], c['H'], c['b']), (nx, nx, nz)
    if s == 'tri_prism':
        return gs.tri_prism, (m, c['d'], *c['y'], c['t'], nx, ny, nz), G.tri_prism(c['d'], *c['y'], c['t']), (nx, ny, nz)
    if s == 'tetrahedron':
        return gs.tetrahedron, (m, c['d'], *c['y'], c['t'], nx, ny, nz), G.tetrahedron(c['d'], *c['y'], c['t']), (nx, ny, nz)
    if s == 'ngon_prism':
        return gs.ngon_prism, (m, c['H'], c['a'], c['N'], nx, nz), G.ngon_prism(c['H'], c['a'], c['N']), (nx, nx, nz)
    if s == 'pyramid':
        return gs.pyramid, (m, c['x'], c['y'], c['z'], nx, ny, nz), G.pyramid(c['x'], c['y'], c['z']), (nx, ny, nz)
    if s == 'cylhole':
        return gs.cylhole, (m, c['R']*c['f'], c['R'], nx, nz), G.cylhole(c['R']*c['f'], c['R']), (nx, nx, nz)
    return gs.platehole, (m, c['t'], c['r'], c['b'], nx, ny, nz), G.platehole(c['t'], c['r'], c['b']), (nx, ny, nz)


def resolved(sol, nod, h):
    """Does the solid contain a box of one cell, so that every lattice of that step has a site in it?"""
    P = nod[:, 1:][::max(1, len(nod)//400)]
    ok = np.ones(len(P), bool)
    for d in np.ndindex(3, 3, 3):
        ok &= sol.slack(P+0.51*h*(np.array(d)-1)) > 0
    return ok.any()


def quiet(ctx, f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.call(f, *a)


def lattice(v, eps, want):
    """(origin, step) of the uniform lattice carrying the values v, or None."""
    u = np.sort(v)
    u = u[np.concatenate([[True], np.diff(u) > eps])]
    if len(u) < 2:
        return None, None, u
    best = None
    for j in range(1, 8):               # columns without any point leave gaps
        h = np.diff(u).min()/j
        n = max(1, round((u[-1]-u[0])/h))
        h = (u[-1]-u[0])/n
        d = np.abs((u-u[0])/h-np.round((u-u[0])/h)).max()*h
        if d <= 4*eps and (best is None or best > 1.5*want):
            best = h
    return u[0], best, u


def masses(ctx, p, m, what):
    ctx.check(isinstance(p, np.ndarray) and p.ndim == 2 and p.shape[1] == 4 and len(p), lambda: f'{what}: returned shape {np.shape(p)}')
    ctx.check(np.isfinite(p).all(), lambda: f'{what}: non-finite values')
    ctx.check(abs(p[:, 0].sum()-m) <= 1e-11*abs(m), lambda: f'{what}: masses add up to {p[:, 0].sum()!r}, not {m!r}')


@check.clause(fd(dict(c=shape, m=mass_nonzero,
                      nx=nn, ny=nn, nz=nn)), quick=16000, thorough=300000, shards=8)
def grid(k, ctx):
    c, m = k['c'], k['m']
    fn, args, sol, cnt = build(c, m, k['nx'], k['ny'], k['nz'])
    what = f'glibShapes.{c["s"]}{args}'
    nod = sol.nodes(6)
    ext = sol.box[:, 1]-sol.box[:, 0]
    fill = nod[:, 0].sum()/np.prod(ext)*np.prod(cnt)
    thin = c['s'] in ('annulus', 'wedge', 'outer_cone') and (c['r'][1]-c['r'][0]) < 2.5*max(ext[:2]/np.array(cnt[:2]))
    if fill < 8 or thin or not resolved(sol, nod, ext/np.array(cnt)):
        ctx.label('unresolved')
        return
    p = quiet(ctx, fn, *args)
    masses(ctx, p, m, what)
    ctx.check(np.abs(p[:, 0]-m/len(p)).max() <= 1e-11*abs(m)/len(p), lambda: f'{what}: masses are not equal')
    P = p[:, 1:]
    eps = 1e-9*sol.size
    sl = sol.slack(P)
    ctx.check(sl.min() >= -eps, lambda: f'{what}: point {P[sl.argmin()].tolist()} lies outside the solid by {-sl.min():.3g}')
    ctx.label(c['s'])
    ctx.nt(len(p) >= 8 and (len(set(cnt)) > 1 or len(set(np.round(ext, 9))) > 1))
    # lattice
    axes = []
    for a in range(3):
        o, h, u = lattice(P[:, a], eps, ext[a]/cnt[a])
        if o is None:
            ctx.label('flat')
            return
        ctx.check(h is not None, lambda: f'{what}: coordinates along axis {a} are not evenly spaced')
        ratio = h*cnt[a]/ext[a]
        ctx.check(0.6 <= ratio <= 1.5 or len(u) < 3, lambda: f'{what}: step {h:.6g} along axis {a} for {cnt[a]} points over {ext[a]:.6g}')
        lo = math.ceil((sol.box[a, 0]-o)/h-1e-9)
        hi = math.floor((sol.box[a, 1]-o)/h+1e-9)
        axes.append(o+h*np.arange(lo, hi+1))
    if np.prod([len(a) for a in axes]) > 200000:
        ctx.fail(f'{what}: lattice much finer than requested')
    X = np.stack(np.meshgrid(*axes, indexing='ij'), -1).reshape(-1, 3)
    s = sol.slack(X)
    must = X[s > 4*eps]
    key = {tuple(np.round(q/(64*eps)).astype(int)) for q in P}
    ctx.check(len(key) == len(P), lambda: f'{what}: repeated points')
    near = _near(P, must, 8*eps)
    ctx.check(near.all(), lambda: f'{what}: nothing at {must[~near][0].tolist()} although it is inside the solid '
              f'({(~near).sum()} of {len(must)} sites missing)')
    mean, sec = G.moments(p)
    M1, M2 = G.moments(nod)
    step = np.array([a[1]-a[0] if len(a) > 1 else 0 for a in axes])
    for a, name in enumerate('xyz'):
        ctx.check(abs(mean[a]-M1[a]) <= 1.5*step[a]+0.05*ext[a], lambda: f'{what}: mean {name} {mean[a]:.6g}, the solid has {M1[a]:.6g} (step {step[a]:.3g})')
        if name in sol.sym:
            ties = (np.abs(s) <= 4*eps).sum()
            ctx.check(abs(mean[a]) <= 1e-9*sol.size+ext[a]*ties/len(p), lambda: f'{what}: mean {name} is {mean[a]:.6g} but the solid is mirror symmetric')
    for a in range(3):
        b = 2*sol.size*step[a]+0.12*sol.size*ext[a]
        ctx.check(abs(sec[a, a]-M2[a, a]) <= b, lambda: f'{what}: mean square along axis {a} {sec[a, a]:.6g}, the solid has {M2[a, a]:.6g}')


def _near(P, Q, tol):
    """For each row of Q: is there a row of P within tol (max norm)?"""
    from scipy.spatial import cKDTree
    if not len(Q):
        return np.ones(0, bool)
    d, _ = cKDTree(P).query(Q, p=np.inf)
    return d <= tol


SHAPES = ('sphere', 'rectangle', 'annulus', 'cone', 'wedge', 'trapezoid', 'outer_cone', 'tri_prism', 'tetrahedron', 'ngon_prism',
          'pyramid', 'cylhole', 'platehole')


@check.clause(fd(dict(c=shape, m=mass_nonzero, f=st.integers(0, 4))), quick=160, thorough=2400, shards=8)
def converge(k, ctx):
    """A fine grid reproduces volume averages of degree 1 and 2 to a few per cent of the size."""
    c, m = k['c'], k['m']
    n = [26, 28, 30, 27, 25]
    f = k['f']
    fn, args, sol, cnt = build(c, m, n[f], n[(f+1) % 5], n[(f+2) % 5])
    what = f'glibShapes.{c["s"]}{args}'
    ext = sol.box[:, 1]-sol.box[:, 0]
    nod = sol.nodes(6)
    fill = nod[:, 0].sum()/np.prod(ext)
    thin = c['s'] in ('annulus', 'wedge', 'outer_cone') and (c['r'][1]-c['r'][0]) < 5*max(ext[:2]/np.array(cnt[:2]))
    if fill < 0.02 or thin or not resolved(sol, nod, ext/np.array(cnt)):
        ctx.label('unresolved')
        return
    p = quiet(ctx, fn, *args)
    masses(ctx, p, m, what)
    mean, sec = G.moments(p)
    M1, M2 = G.moments(nod)
    ctx.label(c['s'])
    ctx.nt(True)
    h = ext/np.array(cnt)
    # surface error: one layer of cells over the solid, partly averaging out
    e = 0.25*(h/ext).sum()/max(fill, 0.05)**0.5
    for a in range(3):
        ctx.check(abs(mean[a]-M1[a]) <= min(e, 0.12)*ext[a], lambda: f'{what}: mean along axis {a} {mean[a]:.6g}, the solid has {M1[a]:.6g}')
        for b in range(3):
            ctx.check(abs(sec[a, b]-M2[a, b]) <= 2*min(e, 0.12)*sol.size*max(ext[a], ext[b]),
                      lambda: f'{what}: mean of axis {a} times axis {b} {sec[a, b]:.6g}, the solid has {M2[a, b]:.6g}')

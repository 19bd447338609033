from common import *
import gridmodel as G
import newt.gShapeGL as gl

check = Check('P25', 'All 6 Gauss-Legendre generators with unequal dimensions and unequal per-axis orders (1 to 12, rarely 32).  Oracle: product '
              'Gauss-Legendre rule of the documented bounding box restricted to the documented solid, masses in proportion to the '
              'weights and adding up to the requested mass; for bricks all monomials up to degree 2n-1 per axis are exact.  '
              'Non-trivial: at least 8 points and unequal orders or dimensions.')
fd = st.fixed_dictionaries
sz = gen.pos(0.1, 4.0)
nn = gen.degree((25, 2, 12), (1, 13, 32))
mass_nonzero = st.one_of(gen.pos(0.05, 5.0), gen.pos(0.05, 5.0), gen.pos(0.05, 5.0).map(lambda v: -v))
beta_s = st.one_of(gen.fl(0.3, math.pi), gen.fl(0.3, 1.5), gen.fl(1.6, math.pi), st.sampled_from([math.pi, math.pi/2, math.pi/3]))


@st.composite
def ring(draw):
    ro = draw(sz)
    return [draw(st.one_of(st.just(0.0), gen.fl(0.02, 0.8)))*ro, ro]


@st.composite
def ys(draw):
    a, d = draw(gen.fl(-2.5, 2.0)), draw(gen.fl(0.3, 3.0))
    return draw(gen.pick((7, st.just([a, a+d])), (1, st.just([-d/2, d/2])), (1, st.just([0.0, d])), (1, st.just([-d, 0.0]))))


shape = st.one_of(
    fd(dict(s=st.just('sphere'), R=sz)), fd(dict(s=st.just('rectangle'), x=sz, y=sz, z=sz)),
    fd(dict(s=st.just('annulus'), r=ring(), t=sz)), fd(dict(s=st.just('cone'), R=sz, H=sz)),
    fd(dict(s=st.just('wedge'), r=ring(), t=sz, b=beta_s)), fd(dict(s=st.just('tri_prism'), d=sz, y=ys(), t=sz)))


def build(c, m, nx, ny, nz):
    s = c['s']
    if s == 'sphere':
        return gl.sphere, (m, c['R'], nx), G.sphere(c['R']), (nx, nx, nx)
    if s == 'rectangle':
        return gl.rectangle, (m, c['x'], c['y'], c['z'], nx, ny, nz), G.rectangle(c['x'], c['y'], c['z']), (nx, ny, nz)
    if s == 'annulus':
        return gl.annulus, (m, *c['r'], c['t'], nx, nz), G.wedge(*c['r'], c['t'], math.pi), (nx, nx, nz)
    if s == 'cone':
        return gl.cone, (m, c['R'], c['H'], nx, nz), G.cone(c['R'], c['H'], math.pi), (nx, nx, nz)
    if s == 'wedge':
        return gl.wedge, (m, *c['r'], c['t'], c['b'], nx, nz), G.wedge(*c['r'], c['t'], c['b']), (nx, nx, nz)
    return gl.tri_prism, (m, c['d'], *c['y'], c['t'], nx, ny, nz), G.tri_prism(c['d'], *c['y'], c['t']), (nx, ny, nz)


def rule(sol, cnt):
    ax = []
    for a in range(3):
        x, w = np.polynomial.legendre.leggauss(cnt[a])
        lo, hi = sol.box[a]
        ax.append(((lo+hi)/2+(hi-lo)/2*x, w))
    X = np.stack(np.meshgrid(*[q[0] for q in ax], indexing='ij'), -1).reshape(-1, 3)
    W = np.einsum('i,j,k->ijk', *[q[1] for q in ax]).ravel()
    return X, W


@check.clause(fd(dict(c=shape, m=mass_nonzero, nx=nn, ny=nn, nz=nn)), quick=12000, thorough=200000, shards=8)
def nodes(k, ctx):
    c, m = k['c'], k['m']
    fn, args, sol, cnt = build(c, m, k['nx'], k['ny'], k['nz'])
    what = f'gShapeGL.{c["s"]}{args}'
    X, W = rule(sol, cnt)
    eps = 1e-9*sol.size
    s = sol.slack(X)
    must = s > eps
    if must.sum() < 1:
        ctx.label('unresolved')
        return
    p = ctx.call(fn, *args)
    ctx.check(isinstance(p, np.ndarray) and p.ndim == 2 and p.shape[1] == 4 and len(p), lambda: f'{what}: returned shape {np.shape(p)}')
    ctx.check(np.isfinite(p).all(), lambda: f'{what}: non-finite values')
    ctx.check(abs(p[:, 0].sum()-m) <= 1e-11*abs(m), lambda: f'{what}: masses add up to {p[:, 0].sum()!r}, not {m!r}')
    sl = sol.slack(p[:, 1:])
    ctx.check(sl.min() >= -eps, lambda: f'{what}: point {p[sl.argmin(), 1:].tolist()} lies outside the solid by {-sl.min():.3g}')
    from scipy.spatial import cKDTree
    d, i = cKDTree(X).query(p[:, 1:], p=np.inf)
    ctx.check(d.max() <= eps, lambda: f'{what}: point {p[d.argmax(), 1:].tolist()} is not a Gauss-Legendre node of the bounding box')
    ctx.check(len(set(i.tolist())) == len(p), lambda: f'{what}: repeated nodes')
    miss = set(np.nonzero(must)[0].tolist())-set(i.tolist())
    ctx.check(not miss, lambda: f'{what}: node {X[min(miss)].tolist()} inside the solid is missing')
    want = m*W[i]/W[i].sum()
    ctx.close(p[:, 0], want, 1e-11*np.abs(want), f'{what}: masses')
    ctx.label(c['s'])
    ext = sol.box[:, 1]-sol.box[:, 0]
    ctx.nt(len(p) >= 8 and (len(set(cnt)) > 1 or len(set(np.round(ext, 9))) > 1))


@check.clause(fd(dict(d=st.lists(sz, min_size=3, max_size=3), n=st.lists(st.integers(1, 8), min_size=3, max_size=3), m=mass_nonzero)),
              quick=4000, thorough=60000)
def brick_exact(c, ctx):
    n = c['n']
    p = ctx.call(gl.rectangle, c['m'], *c['d'], *n)
    what = f'gShapeGL.rectangle({c["m"]}, {c["d"]}, {n})'
    ctx.nt(len(set(n)) > 1 and len(set(c['d'])) > 1)
    ctx.check(p.shape == (np.prod(n), 4), lambda: f'{what}: shape {p.shape}')
    h = np.array(c['d'])/2
    rng = np.random.default_rng(1)
    E = [[0, 0, 0]]+[[int(rng.integers(0, 2*q)) for q in n] for _ in range(12)]+[[2*n[0]-2, 0, 0], [0, 2*n[1]-2, 0], [0, 0, 2*n[2]-2]]
    for e in E:
        got = (p[:, 0]*np.prod((p[:, 1:]/h)**np.array(e), axis=1)).sum()
        want = c['m']*np.prod([0.0 if q % 2 else 1/(q+1) for q in e])
        ctx.check(abs(got-want) <= 1e-11*abs(c['m']), lambda: f'{what}: normalised moment {e} is {got!r}, exactly {want!r}')


@check.clause(fd(dict(c=shape, m=mass_nonzero, f=st.integers(0, 3))), quick=160, thorough=2000, shards=8)
def converge(k, ctx):
    c, m = k['c'], k['m']
    n = [22, 26, 24, 28]
    f = k['f']
    fn, args, sol, cnt = build(c, m, n[f], n[(f+1) % 4], n[(f+2) % 4])
    what = f'gShapeGL.{c["s"]}{args}'
    nod = sol.nodes(6)
    ext = sol.box[:, 1]-sol.box[:, 0]
    fill = nod[:, 0].sum()/np.prod(ext)
    if fill < 0.12:
        ctx.label('unresolved')
        return
    p = ctx.call(fn, *args)
    mean, sec = G.moments(p)
    M1, M2 = G.moments(nod)
    ctx.label(c['s'])
    ctx.nt(True)
    for a in range(3):
        ctx.check(abs(mean[a]-M1[a]) <= 0.1*ext[a], lambda: f'{what}: mean along axis {a} {mean[a]:.6g}, the solid has {M1[a]:.6g}')
        for b in range(3):
            ctx.check(abs(sec[a, b]-M2[a, b]) <= 0.15*sol.size*max(ext[a], ext[b]),
                      lambda: f'{what}: mean of axis {a} times axis {b} {sec[a, b]:.6g}, the solid has {M2[a, b]:.6g}')

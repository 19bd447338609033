from common import *
import octave

check = Check('P34', 'Every MATLAB generator with unequal dimensions and counts from 1; height maps with empty, missing and fractional cells; '
              'random generators under 1-300 points and random generator states.  Oracle: the documented lattice or solid (membership, extents, count, '
              'total mass, centre).  Non-trivial: at least 4 points.')
fd = st.fixed_dictionaries
sz = gen.pos(0.2, 4.0)
msign = gen.pos(0.1, 5.0)
cnt = gen.degree((8, 1, 7), (1, 8, 24))


def call(ctx, fn, *a, seed=None):
    pre = '' if seed is None else f"rand('twister',{seed}); randn('twister',{seed});"
    return np.atleast_2d(ctx.call(octave.call, fn, *a, pre=pre))


def rows(P):
    return P[np.lexsort(np.round(P, 9).T[::-1])]


def grid_points(dims, ns):
    ax = [(np.arange(n)-(n-1)/2)*d/n for d, n in zip(dims, ns)]
    return np.stack(np.meshgrid(*ax, indexing='ij'), -1).reshape(-1, 3)


def as_set(ctx, P, want, tol, what):
    """Same points with the same masses, in any order."""
    ctx.check(P.shape == want.shape, lambda: f'{what}: {P.shape[0]} points, expected {want.shape[0]}')
    from scipy.spatial import cKDTree
    d, i = cKDTree(want[:, 1:]).query(P[:, 1:])
    ctx.check(d.max() <= tol, lambda: f'{what}: point {P[d.argmax()].tolist()} is {d.max():.3g} from the nearest expected point')
    ctx.check(len(set(i)) == len(i), lambda: f'{what}: a point occurs twice')
    ctx.close(P[:, 0], want[i, 0], 1e-11*np.abs(want[:, 0]).max(), f'{what}: masses')


@check.clause(fd(dict(m=msign, t=sz, w=sz, h=sz, n=st.tuples(cnt, cnt, cnt).map(list))), quick=400, thorough=6000, shards=4)
def rectangle(c, ctx):
    P = call(ctx, 'genPointMassRect', c['m'], c['t'], c['w'], c['h'], *c['n'])
    g = grid_points([c['t'], c['w'], c['h']], c['n'])
    ctx.nt(len(g) >= 4)
    as_set(ctx, P, np.column_stack([np.full(len(g), c['m']/len(g)), g]), 1e-12, f'genPointMassRect{tuple(c.values())}')


@check.clause(fd(dict(m=msign, f=st.one_of(st.just(0.0), gen.fl(0.05, 0.95)), ro=sz, t=sz, nx=cnt, ny=gen.degree((8, 1, 12), (1, 13, 40)))), quick=400, thorough=6000, shards=4)
def sheet(c, ctx):
    ri, ro = c['ro']*c['f'], c['ro']
    P = call(ctx, 'genPointMassAnnlSheet', c['m'], ri, ro, c['t'], c['nx'], c['ny'])
    g = grid_points([c['t'], 2*ro, 2*ro], [c['nx'], c['ny'], c['ny']])
    r = np.hypot(g[:, 1], g[:, 2])
    edge = np.minimum(abs(r-ri) if ri > 0 else np.inf, abs(r-ro)) < 1e-9*ro
    ins = (r < ro) & (r > ri) if ri > 0 else r < ro
    what = f'genPointMassAnnlSheet({c["m"]}, {ri}, {ro}, {c["t"]}, {c["nx"]}, {c["ny"]})'
    if edge.any():
        ctx.label('points on the rim')
        lo, hi = (ins & ~edge).sum(), (ins | edge).sum()
        n = len(P) if P.size else 0
        ctx.check(lo <= n <= hi, lambda: f'{what}: {n} points, expected {lo} to {hi}')
        if n == 0:
            return
        rr = np.hypot(P[:, 2], P[:, 3])
        ctx.check((rr >= ri-1e-9*ro).all() and (rr <= ro*(1+1e-9)).all() and (abs(P[:, 1]) <= c['t']/2).all(), lambda: f'{what}: point outside')
        ctx.close(P[:, 0].sum(), c['m'], 1e-12*c['m'], f'{what}: total mass')
        return
    g = g[ins]
    ctx.nt(len(g) >= 4)
    if not len(g):
        ctx.check(P.size == 0, lambda: f'{what}: points outside the sheet')
        return
    as_set(ctx, P, np.column_stack([np.full(len(g), c['m']/len(g)), g]), 1e-12, what)


@check.clause(fd(dict(m=msign, x=gen.fl(-3, 3), y=gen.fl(-3, 3), z=gen.fl(-3, 3), d=st.one_of(sz, sz.map(lambda v: -v)), n=gen.degree((8, 1, 30), (1, 31, 300)))),
              quick=300, thorough=3000, shards=2)
def line(c, ctx):
    P = call(ctx, 'genPointMassLine', c['m'], c['x'], c['y'], c['z'], c['d'], c['n'])
    n = c['n']
    ctx.nt(n >= 4)
    want = np.column_stack([np.full(n, c['m']), np.full(n, c['x']), np.full(n, c['y']), c['z']+c['d']*np.arange(n)])
    as_set(ctx, P, want, 1e-12*(1+n), f'genPointMassLine{tuple(c.values())}')


@check.clause(fd(dict(m=msign, r=sz, n=gen.degree((8, 1, 40), (1, 41, 400)))), quick=300, thorough=3000, shards=2)
def ring(c, ctx):
    n, r = c['n'], c['r']
    P = call(ctx, 'genPointMassXRing', c['m'], r, n)
    ctx.nt(n >= 4)
    a = 2*math.pi*np.arange(n)/n
    want = np.column_stack([np.full(n, c['m']/n), np.zeros(n), r*np.sin(a), r*np.cos(a)])
    as_set(ctx, P, want, 1e-12*r*10, f'genPointMassXRing{tuple(c.values())}')


@st.composite
def heights(draw):
    nx, ny = draw(gen.degree((8, 1, 7), (1, 8, 16))), draw(gen.degree((8, 1, 7), (1, 8, 16)))
    zs = draw(st.one_of(sz, st.sampled_from([0.5, 1.0, 0.25])))
    cell = st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(1, 4), st.just(0), st.just(None), st.just(-2))
    K = draw(st.lists(cell, min_size=nx*ny, max_size=nx*ny))
    F = draw(st.lists(gen.fl(0.05, 0.95, 3), min_size=nx*ny, max_size=nx*ny))
    return dict(nx=nx, ny=ny, zs=zs, K=K, F=F, xs=draw(sz), ys=draw(sz), rho=draw(msign))


@check.clause(heights(), quick=500, thorough=8000, shards=6)
def height_map(c, ctx):
    """Columns of points filling a height map; missing and non-positive cells stay empty."""
    nx, ny, zs = c['nx'], c['ny'], c['zs']
    K = np.array([-9 if k is None else k for k in c['K']]).reshape(ny, nx)
    A = (K+np.array(c['F']).reshape(ny, nx))*zs
    A[K == -9] = np.nan
    ctx.label('all empty' if (K <= 0).all() else 'filled', 'missing cells' if (K == -9).any() else 'complete')
    m = zs*c['xs']*c['ys']*c['rho']
    want = [[m, (i-(nx-1)/2)*c['xs'], (j-(ny-1)/2)*c['ys'], (k+.5)*zs]
            for j in range(ny) for i in range(nx) for k in range(max(K[j, i], 0))]
    what = f'genPointMassArrayFrom2DArray({A.tolist()}, {c["xs"]}, {c["ys"]}, {zs}, {c["rho"]})'
    ctx.nt(len(want) >= 4)
    if not want:
        if (K == -9).any() or (K < 0).any():
            return      # nothing to fill: either an empty array or a refusal
        P = call(ctx, 'genPointMassArrayFrom2DArray', A, c['xs'], c['ys'], zs, c['rho'])
        ctx.check(P.size == 0, f'{what}: points in an empty map')
        return
    P = call(ctx, 'genPointMassArrayFrom2DArray', A, c['xs'], c['ys'], zs, c['rho'])
    as_set(ctx, P, np.array(want), 1e-11*(1+8*zs), what)


seed = st.integers(0, 10**6)
npt = st.integers(1, 300)


@check.clause(fd(dict(m=msign, f=st.one_of(st.just(0.0), gen.fl(0.0, 0.9)), ro=sz, n=gen.degree((4, 1, 60), (1, 61, 250)), s=seed)), quick=200, thorough=2000, shards=4)
def random_disk(c, ctx):
    ri, ro = c['ro']*c['f'], c['ro']
    P = call(ctx, 'genPointMassRandomDisk', c['m'], ri, ro, c['n'], seed=c['s'])
    what = f'genPointMassRandomDisk({c["m"]}, {ri}, {ro}, {c["n"]})'
    ctx.nt(c['n'] >= 4)
    ctx.check(P.shape == (c['n'], 4), lambda: f'{what}: shape {P.shape}')
    r = np.hypot(P[:, 2], P[:, 3])
    ctx.check((r >= ri*(1-1e-12)).all() and (r <= ro*(1+1e-12)).all(), lambda: f'{what}: radii from {r.min()} to {r.max()}')
    ctx.close(P[:, :2], np.tile([c['m'], 0.0], (c['n'], 1)), 1e-14*c['m'], f'{what}: masses and plane')
    ctx.check(len(np.unique(np.round(P, 12), axis=0)) == c['n'], f'{what}: repeated points')


@check.clause(fd(dict(m=msign, y=sz, z=sz, n=npt, s=seed)), quick=200, thorough=2000, shards=4)
def random_rectangle(c, ctx):
    P = call(ctx, 'genPointMassRandomRectangle', c['m'], c['y'], c['z'], c['n'], seed=c['s'])
    what = f'genPointMassRandomRectangle{tuple(c.values())[:4]}'
    n = c['n']
    ctx.nt(n >= 4)
    ctx.check(P.shape == (n, 4), lambda: f'{what}: shape {P.shape}')
    ctx.close(P[:, :2], np.tile([c['m'], 0.0], (n, 1)), 1e-14*c['m'], f'{what}: masses and plane')
    ctx.check((abs(P[:, 2]) <= c['y']/2).all() and (abs(P[:, 3]) <= c['z']/2).all(), f'{what}: points outside')


@check.clause(fd(dict(m=msign, r=sz, n=st.integers(20, 400), s=seed)), quick=200, thorough=2000, shards=4)
def random_shell(c, ctx):
    P = call(ctx, 'genPointMassSphericalRandomShell', c['m'], c['r'], c['n'], seed=c['s'])
    what = f'genPointMassSphericalRandomShell{tuple(c.values())[:3]}'
    n = len(P)
    ctx.nt(n >= 4)
    # acceptance pi/4 of floor(4N/pi) draws
    ctx.check(abs(n-c['n']) <= 7*math.sqrt(c['n'])+3, lambda: f'{what}: {n} points')
    ctx.close(np.linalg.norm(P[:, 1:], axis=1), np.full(n, c['r']), 1e-12*c['r'], f'{what}: radius')
    ctx.close(P[:, 0], np.full(n, c['m']/n), 1e-12*c['m'], f'{what}: masses')


@check.clause(fd(dict(k=st.sampled_from(['disk', 'rect', 'shell']), a=sz, b=sz, f=st.one_of(st.just(0.0), gen.fl(0.1, 0.8)), s=seed)), quick=60, thorough=400, shards=6)
def random_uniform(c, ctx):
    """Random generators fill their solid evenly: first and second moments and quadrant counts within seven sigma."""
    N, a, b = 4000, c['a'], c['b']
    ctx.nt(True)
    ctx.label(c['k'])
    if c['k'] == 'disk':
        ri = a*c['f']
        N = 600
        P = call(ctx, 'genPointMassRandomDisk', 1.0, ri, a, N, seed=c['s'])[:, 2:]
        U = P/a
        s2 = (a**4-ri**4)/(a**2-ri**2)/4/a**2
        cov = np.eye(2)*s2
    elif c['k'] == 'rect':
        P = call(ctx, 'genPointMassRandomRectangle', 1.0, a, b, N, seed=c['s'])[:, 2:]
        U = P/[a/2, b/2]
        cov = np.eye(2)/3
    else:
        P = call(ctx, 'genPointMassSphericalRandomShell', 1.0, a, N, seed=c['s'])[:, 1:]
        U = P/a
        cov = np.eye(3)/3
    n = len(U)
    sg = 7/math.sqrt(n)
    ctx.close(U.mean(0), np.zeros(U.shape[1]), sg, f'{c["k"]}: mean')
    ctx.close(U.T @ U/n, cov, sg, f'{c["k"]}: second moments')
    for i in range(U.shape[1]):
        ctx.close(np.mean(U[:, i] > 0), 0.5, sg/2, f'{c["k"]}: half above 0')

from common import *
import newt.glibShapes as gs

check = Check('P26', 'Coordinate arrays of 1-6 points including the axis, the origin and every quadrant; random shells of 10-400 points '
              'with several random states.  Oracle: the definitions (r, angle in [0, 2 pi), z) evaluated with math, the round trip, '
              'and for shells exact radius, equal masses, mass total, count and isotropy within 6.5 standard deviations.  '
              'Non-trivial: two points off the axis in different quadrants; shells of 100 points or more.')
fd = st.fixed_dictionaries


@check.clause(st.lists(gen.vec(4.0), min_size=1, max_size=6), quick=6000, thorough=100000)
def cart(P, ctx):
    X = arr(P)
    B = X.copy()
    R = np.asarray(ctx.call(gs.cart_2_cyl, X))
    ctx.check(R.shape == X.shape, lambda: f'cart_2_cyl: shape {R.shape}')
    unchanged(ctx, [B], [X], 'cart_2_cyl')
    for (x, y, z), (r, q, h) in zip(B, R):
        ctx.check(abs(r-math.hypot(x, y)) <= 1e-14*(1+r), lambda: f'cart_2_cyl({[x, y, z]}): radius {r!r}')
        ctx.check(0 <= q < 2*math.pi, lambda: f'cart_2_cyl({[x, y, z]}): angle {q!r} not in [0, 2 pi)')
        d = (q-math.atan2(y, x)) % (2*math.pi)
        ctx.check(min(d, 2*math.pi-d) <= 1e-14*8 or r == 0, lambda: f'cart_2_cyl({[x, y, z]}): angle {q!r}')
        ctx.check(h == z, lambda: f'cart_2_cyl({[x, y, z]}): height {h!r}')
    back = np.asarray(ctx.call(gs.cyl_2_cart, R.copy()))
    ctx.close(back, B, 1e-13*(1+np.abs(B).max()), f'cart -> cyl -> cart of {P}')
    quad = {(x > 0, y > 0) for x, y, z in P if x and y}
    ctx.nt(len(quad) >= 2)
    ctx.label(f'{len(quad)} quadrants', 'axis' if any(x == 0 and y == 0 for x, y, z in P) else 'off-axis')


@check.clause(st.lists(st.tuples(gen.pos(0.05, 4.0), gen.angle(-9, 9), gen.fl(-3, 3)), min_size=1, max_size=6), quick=6000, thorough=100000)
def cyl(P, ctx):
    R = arr(P)
    B = R.copy()
    X = np.asarray(ctx.call(gs.cyl_2_cart, R))
    ctx.check(X.shape == R.shape, lambda: f'cyl_2_cart: shape {X.shape}')
    unchanged(ctx, [B], [R], 'cyl_2_cart')
    want = [[r*math.cos(q), r*math.sin(q), z] for r, q, z in P]
    ctx.close(X, want, 1e-14*(1+R[:, :1]), f'cyl_2_cart({P})')
    back = np.asarray(ctx.call(gs.cart_2_cyl, X.copy()))
    ctx.close(back[:, 0], B[:, 0], 1e-13*(1+B[:, 0]), 'cyl -> cart -> cyl radius')
    ctx.close(back[:, 2], B[:, 2], 0, 'cyl -> cart -> cyl height')
    d = (back[:, 1]-B[:, 1]) % (2*np.pi)
    ctx.check(np.minimum(d, 2*np.pi-d).max() <= 1e-13, lambda: f'cyl -> cart -> cyl of {P}: angles {back[:, 1].tolist()}')
    ctx.nt(len({math.floor(q/(math.pi/2)) for r, q, z in P}) >= 2)


@check.clause(fd(dict(m=st.one_of(gen.pos(0.05, 5), gen.pos(0.05, 5).map(lambda v: -v)), r=gen.pos(0.05, 4), n=st.one_of(st.integers(10, 99), st.integers(100, 1500)),
                      seed=st.integers(0, 10**6))), quick=2500, thorough=40000)
def shell(c, ctx):
    m, r, n = c['m'], c['r'], c['n']
    state = np.random.get_state()
    try:
        np.random.seed(c['seed'])
        p = ctx.call(gs.spherical_random_shell, m, r, n)
    finally:
        np.random.set_state(state)
    what = f'spherical_random_shell({m}, {r}, {n}) [numpy seed {c["seed"]}]'
    ctx.check(isinstance(p, np.ndarray) and p.ndim == 2 and p.shape[1] == 4, lambda: f'{what}: returned shape {np.shape(p)}')
    k = len(p)
    sd = math.sqrt(n*(4/math.pi-1)*math.pi/4)+1
    ctx.check(abs(k-n) <= 6.5*sd+1, lambda: f'{what}: {k} points')
    ctx.check(abs(p[:, 0].sum()-m) <= 1e-11*abs(m), lambda: f'{what}: masses add up to {p[:, 0].sum()!r}')
    ctx.check(np.ptp(p[:, 0]) <= 1e-13*abs(m), lambda: f'{what}: unequal masses')
    rad = np.sqrt((p[:, 1:]**2).sum(1))
    ctx.check(np.abs(rad-r).max() <= 1e-12*r, lambda: f'{what}: radii from {rad.min()!r} to {rad.max()!r}')
    u = p[:, 1:]/r
    ctx.nt(n >= 100)
    e = 6.5/math.sqrt(k)
    mean = u.mean(0)
    ctx.check((np.abs(mean) <= e*math.sqrt(1/3)+3/k).all(), lambda: f'{what}: mean direction {mean.tolist()} is not isotropic')
    S = u.T @ u/k
    for a in range(3):
        for b in range(3):
            w = 1/3 if a == b else 0
            sg = math.sqrt(4/45) if a == b else math.sqrt(1/15)
            ctx.check(abs(S[a, b]-w) <= e*sg+3/k, lambda: f'{what}: mean of direction components {a},{b} is {S[a, b]:.4g}, isotropic is {w:.4g}')
    if n >= 100:
        ctx.check(len(np.unique(np.round(u, 9), axis=0)) == k, lambda: f'{what}: repeated points')
        oct_ = {tuple(q > 0) for q in u}
        ctx.check(len(oct_) == 8, lambda: f'{what}: only {len(oct_)} octants hold points')

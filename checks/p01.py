from common import *
import newt.glib as glb

check = Check('P01', 'Pairs of point arrays (1-60 points, mixed-sign masses, scales 1e-3..1e3) by structured '
              'random generation; non-trivial: at least two pairs with different separations, positions not all on one axis.')


def ref_ft(a, b):
    """Reference force and torque on a by b, math.fsum accumulation."""
    fs = [[], [], []]
    ts = [[], [], []]
    scale = tsc = 0.0
    for ma, xa, ya, za in a:
        for mb, xb, yb, zb in b:
            d = (xb-xa, yb-ya, zb-za)
            r = math.sqrt(d[0]**2+d[1]**2+d[2]**2)
            k = ref.G*ma*mb/r**3
            f = [k*c for c in d]
            t = [ya*f[2]-za*f[1], za*f[0]-xa*f[2], xa*f[1]-ya*f[0]]
            for i in range(3):
                fs[i].append(f[i])
                ts[i].append(t[i])
            size = abs(k)*r
            scale += size
            tsc += size*math.sqrt(xa*xa+ya*ya+za*za)
    return np.array([math.fsum(c) for c in fs]), np.array([math.fsum(c) for c in ts]), scale, tsc


@st.composite
def pair(draw):
    s = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-3, 1e3, 10.0, 1e-6, 1e6]))
    if draw(st.integers(0, 5)) == 0:
        n, m = draw(st.integers(1, 60)), draw(st.integers(1, 60))
        a = bulk(n, draw(st.integers(0, 10**6)), 2, draw(st.booleans())).tolist()
        b = bulk(m, draw(st.integers(0, 10**6)), 2, draw(st.booleans())).tolist()
    else:
        a, b = draw(gen.spread(draw(gen.points(1, 6)))), draw(gen.spread(draw(gen.points(1, 6))))
    if draw(st.booleans()):
        # keep the pair apart: shift b
        off = draw(gen.vec(6.0))
        b = [[p[0]]+[round(p[1+i]+off[i], 6) for i in range(3)] for p in b]
    # never coincident (the separation may be as small as 1e-6 of the size): nudge by construction
    bb = []
    dmin = draw(st.sampled_from([0.02, 0.02, 0.02, 1e-6]))
    if dmin < 0.01:
        i, j = draw(st.integers(0, len(a)-1)), draw(st.integers(0, len(b)-1))
        e = draw(gen.direction())
        g = draw(st.sampled_from([1e-5, 1e-4, 1e-3]))
        b[j] = [b[j][0]]+[a[i][1+k]+g*e[k] for k in range(3)]
    A = np.array(a)
    for p in b:
        q = list(p)
        while np.sqrt(((A[:, 1:4]-np.array(q[1:4]))**2).sum(1)).min() < dmin:
            q[1] = round(q[1]+0.137, 6)
        bb.append(q)
    sc = lambda P: [[p[0]]+[s*c for c in p[1:]] for p in P]
    return dict(a=sc(a), b=sc(bb), form=draw(st.integers(0, 3)))


def positions_differ(a, b):
    d = {tuple(np.round(np.array(y[1:])-np.array(x[1:]), 9)) for x in a for y in b}
    off = sum(1 for v in d if sum(abs(c) > 1e-9 for c in v) >= 2)
    return len(d) >= 2 and off >= 1


def slack(a, b):
    """Cancellation in the position difference limits the relative accuracy."""
    A, B = np.array(a), np.array(b)
    d = np.sqrt(((A[:, None, 1:4]-B[None, :, 1:4])**2).sum(-1)).min()
    return 1e-11+20*EPS*max(np.abs(A[:, 1:]).max(), np.abs(B[:, 1:]).max())/d


@check.clause(pair(), quick=1500, thorough=40000, shards=2)
def force_and_torque(c, ctx):
    a, b = c['a'], c['b']
    A, B = arr(a), arr(b)
    F, T, fs, ts = ref_ft(a, b)
    ctx.nt(positions_differ(a, b))
    tol = slack(a, b)
    before = snapshot(A, B)
    X = A[0] if (len(A) == 1 and c['form'] & 1) else A
    Y = B[0] if (len(B) == 1 and c['form'] & 2) else B
    ctx.label(f'ndim{X.ndim}{Y.ndim}')
    f, t = ctx.call(glb.point_matrix_gravity, X, Y)
    ctx.close(f, F, tol*fs, 'force')
    ctx.close(t, T, tol*ts, 'torque')
    unchanged(ctx, before, [A, B], 'point_matrix_gravity')
    # single-row routine, both forms of the second argument
    for i in (0, len(a)-1):
        F1, _, s1, _ = ref_ft(a[i:i+1], b)
        ctx.close(ctx.call(glb.gmmr2_array, A[i], B), F1, tol*s1, 'gmmr2_array(row, matrix)')
    F1, _, s1, _ = ref_ft(a[:1], b[-1:])
    ctx.close(ctx.call(glb.gmmr2_array, A[0], B[-1]), F1, tol*s1, 'gmmr2_array(row, row)')


def big(n, seed, off):
    g = np.random.default_rng(seed)
    P = np.column_stack([g.uniform(0.1, 3, n)*np.where(g.random(n) < 0.3, -1, 1), g.uniform(-2, 2, (n, 3))])
    P[:, 1:] += off
    return P


def vector_ft(A, B, kern=lambda r: 1/r**3):
    F, T, fs, ts = np.zeros(3), np.zeros(3), 0.0, 0.0
    for a in A:
        d = B[:, 1:]-a[1:]
        r = np.sqrt((d**2).sum(1))
        k = ref.G*a[0]*B[:, 0]*kern(r)
        f = (k[:, None]*d).sum(0)
        F += f
        T += np.cross(a[1:], f)
        fs += (np.abs(k)*r).sum()
        ts += (np.abs(k)*r).sum()*np.linalg.norm(a[1:])
    return F, T, fs, ts


sizes = st.tuples(st.integers(1, 6), st.one_of(st.integers(61, 3000), st.integers(61, 20000), st.sampled_from([64, 127, 128, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 4096, 4097, 8193, 10001])),
                  st.integers(0, 10**6), st.booleans()).map(list)


@check.clause(sizes, quick=80, thorough=3000)
def large_arrays(c, ctx):
    """Thousands of points against a few, in either role."""
    n, m, seed, swap = c
    A, B = big(n, seed, 0.0), big(m, seed+1, [7.0, 1.0, -2.0])
    ctx.nt()
    if swap and m <= 4000:
        A, B = B, A
    F, T, fs, ts = vector_ft(A, B) if len(A) < len(B) else [x*(1 if i > 1 else -1) for i, x in enumerate(vector_ft(B, A))]
    f, t = ctx.call(glb.point_matrix_gravity, A, B)
    ctx.close(f, F, 1e-11*fs, f'force of {len(B)} points on {len(A)}')
    if len(A) < len(B):
        ctx.close(t, T, 1e-11*ts, f'torque of {len(B)} points on {len(A)}')
    else:
        # torques about a common origin cancel
        ctx.close(t, T, 1e-10*fs*20, f'torque of {len(B)} points on {len(A)}')


@check.clause(pair(), quick=500, thorough=15000)
def symmetry_laws(c, ctx):
    A, B = arr(c['a']), arr(c['b'])
    _, _, fs, ts = ref_ft(c['a'], c['b'])
    _, _, _, ts2 = ref_ft(c['b'], c['a'])
    tol = slack(c['a'], c['b'])
    f, t = ctx.call(glb.point_matrix_gravity, A, B)
    g, u = ctx.call(glb.point_matrix_gravity, B, A)
    ctx.nt(positions_differ(c['a'], c['b']))
    ctx.close(np.asarray(f)+g, np.zeros(3), tol*fs, 'action and reaction')
    ctx.close(np.asarray(t)+u, np.zeros(3), tol*(ts+ts2), 'torques about a common origin cancel')
    # permutation and splitting
    f2, t2 = ctx.call(glb.point_matrix_gravity, A[::-1], B[::-1])
    ctx.close(f2, f, tol*fs, 'order of points')
    ctx.close(t2, t, tol*ts, 'order of points')
    if len(A) > 1:
        k = len(A)//2
        fa, ta = ctx.call(glb.point_matrix_gravity, A[:k], B)
        fb, tb = ctx.call(glb.point_matrix_gravity, A[k:], B)
        ctx.close(np.asarray(fa)+fb, f, tol*fs, 'additive in the first collection')
        ctx.close(np.asarray(ta)+tb, t, tol*ts, 'additive in the first collection')
    if len(B) > 1:
        k = (len(B)+1)//2
        fa, ta = ctx.call(glb.point_matrix_gravity, A, B[:k])
        fb, tb = ctx.call(glb.point_matrix_gravity, A, B[k:])
        ctx.close(np.asarray(fa)+fb, f, tol*fs, 'additive in the second collection')
        ctx.close(np.asarray(ta)+tb, t, tol*ts, 'additive in the second collection')


ints = st.lists(st.tuples(st.integers(-4, 4), st.integers(-9, 9), st.integers(-9, 9),
                          st.integers(-9, 9)).map(list), min_size=1, max_size=5)


@check.clause(st.tuples(ints, ints).map(list), quick=300, thorough=6000)
def integer_arrays(c, ctx):
    a, b = c
    b = [[p[0], p[1]+20, p[2], p[3]] for p in b]
    F, T, fs, ts = ref_ft(a, b)
    ctx.nt(positions_differ(a, b))
    f, t = ctx.call(glb.point_matrix_gravity, np.array(a), np.array(b))
    ctx.close(f, F, 1e-11*fs, 'force (integer arrays)')
    ctx.close(t, T, 1e-11*ts, 'torque (integer arrays)')

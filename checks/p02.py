from common import *
import newt.glib as glb
import p01

check = Check('P02', 'Point-array pairs with coupling (both signs, zero) and log-uniform length scale 1e-3..1e9; '
              'non-trivial: two distinct separations, non-zero coupling, and some pair with 0.01 < r/lambda < 30.')


def ref_ft(a, b, al, lm):
    fs = [[], [], []]
    ts = [[], [], []]
    sc = tsc = 0.0
    for ma, xa, ya, za in a:
        for mb, xb, yb, zb in b:
            d = (xb-xa, yb-ya, zb-za)
            r = math.sqrt(d[0]**2+d[1]**2+d[2]**2)
            k = al*ref.G*ma*mb*(1+r/lm)*math.exp(-r/lm)/r**3
            f = [k*c for c in d]
            t = [ya*f[2]-za*f[1], za*f[0]-xa*f[2], xa*f[1]-ya*f[0]]
            for i in range(3):
                fs[i].append(f[i])
                ts[i].append(t[i])
            # exp amplifies the rounding of r/lambda
            size = abs(k)*r*(1+r/lm)
            sc += size
            tsc += size*math.sqrt(xa*xa+ya*ya+za*za)
    return np.array([math.fsum(c) for c in fs]), np.array([math.fsum(c) for c in ts]), sc, tsc


couple = st.one_of(gen.fl(-20, 20), st.sampled_from([1.0, -1.0, 0.0, 0.5, 1e-3, 1e6]))
lam = st.one_of(gen.fl(-3, 3).map(lambda e: float(f'{10**e:.6g}')), gen.fl(-1, 1).map(lambda e: float(f'{10**e:.6g}')),
                st.sampled_from([1.0, 0.1, 10.0, 1e6, 1e9, 0.5, 2.0, 1e-3]))


@check.clause(st.tuples(p01.pair(), couple, lam).map(list), quick=1500, thorough=40000, shards=2)
def force_and_torque(c, ctx):
    pc, al, lm = c
    a, b = pc['a'], pc['b']
    A, B = arr(a), arr(b)
    span = np.abs(np.concatenate([A[:, 1:], B[:, 1:]])).max() or 1.0
    # lambda relative to the size of the configuration
    s = 1.0 if span < 50 and span > 0.05 else (1e3 if span >= 50 else 1e-3)
    lm = lm*s
    F, T, fs, ts = ref_ft(a, b, al, lm)
    d = np.sqrt(((A[:, None, 1:4]-B[None, :, 1:4])**2).sum(-1))/lm
    ctx.nt(p01.positions_differ(a, b) and al != 0 and ((d > 0.01) & (d < 30)).any())
    tol = p01.slack(a, b)
    tiny = 1e-290
    before = snapshot(A, B)
    X = A[0] if (len(A) == 1 and pc['form'] & 1) else A
    Y = B[0] if (len(B) == 1 and pc['form'] & 2) else B
    ctx.label(f'ndim{X.ndim}{Y.ndim}')
    f, t = ctx.call(glb.point_matrix_yukawa, X, Y, al, lm)
    ctx.close(f, F, tol*fs+tiny, 'Yukawa force')
    ctx.close(t, T, tol*ts+tiny, 'Yukawa torque')
    unchanged(ctx, before, [A, B], 'point_matrix_yukawa')
    for i in (0, len(a)-1):
        F1, _, s1, _ = ref_ft(a[i:i+1], b, al, lm)
        ctx.close(ctx.call(glb.yukawa_array, A[i], B, al, lm), F1, tol*s1+tiny, 'yukawa_array(row, matrix)')
    F1, _, s1, _ = ref_ft(a[:1], b[-1:], al, lm)
    ctx.close(ctx.call(glb.yukawa_array, A[0], B[-1], al, lm), F1, tol*s1+tiny, 'yukawa_array(row, row)')


@check.clause(st.tuples(p01.pair(), couple).map(list), quick=300, thorough=10000)
def newtonian_limit_and_reaction(c, ctx):
    pc, al = c
    a, b = pc['a'], pc['b']
    A, B = arr(a), arr(b)
    span = np.abs(np.concatenate([A[:, 1:], B[:, 1:]])).max() or 1.0
    ctx.nt(p01.positions_differ(a, b) and al != 0)
    tol = p01.slack(a, b)
    _, _, fs, ts = p01.ref_ft(a, b)
    fg, tg = ctx.call(glb.point_matrix_gravity, A, B)
    fy, ty = ctx.call(glb.point_matrix_yukawa, A, B, al, 1e7*span)
    ctx.close(fy, al*np.asarray(fg), abs(al)*tol*fs, 'lambda -> infinity gives alpha * gravity (force)')
    ctx.close(ty, al*np.asarray(tg), abs(al)*tol*ts, 'lambda -> infinity gives alpha * gravity (torque)')
    lm = 0.7*span
    _, _, fs, ts = ref_ft(a, b, al, lm)
    f, t = ctx.call(glb.point_matrix_yukawa, A, B, al, lm)
    g, u = ctx.call(glb.point_matrix_yukawa, B, A, al, lm)
    ctx.close(np.asarray(f)+g, np.zeros(3), tol*fs+1e-290, 'action and reaction')
    f2, t2 = ctx.call(glb.point_matrix_yukawa, A, B, -2*al, lm)
    ctx.close(f2, -2*np.asarray(f), 3*tol*fs+1e-290, 'linear in alpha')
    ctx.close(t2, -2*np.asarray(t), 3*tol*ts+1e-290, 'linear in alpha')


@check.clause(st.tuples(p01.sizes, couple, gen.fl(-1, 2)).map(list), quick=60, thorough=2000)
def large_arrays(c, ctx):
    (n, m, seed, _), al, e = c
    lm = 10**e
    A, B = p01.big(n, seed, 0.0), p01.big(m, seed+1, [7.0, 1.0, -2.0])
    ctx.nt(al != 0)
    F, T, fs, ts = p01.vector_ft(A, B, lambda r: al*(1+r/lm)*np.exp(-r/lm)/r**3)
    f, t = ctx.call(glb.point_matrix_yukawa, A, B, al, lm)
    k = 1e-11*(1+20/lm)
    ctx.close(f, F, k*fs+1e-290, f'Yukawa force of {m} points on {n}')
    ctx.close(t, T, k*ts+1e-290, f'Yukawa torque of {m} points on {n}')


@check.clause(st.tuples(p01.ints, p01.ints, st.sampled_from([1, 2, -3, 0.5]), st.sampled_from([1, 5, 50, 2.5])).map(list),
              quick=200, thorough=5000)
def integer_arrays(c, ctx):
    a, b, al, lm = c
    b = [[p[0], p[1]+20, p[2], p[3]] for p in b]
    F, T, fs, ts = ref_ft(a, b, al, lm)
    ctx.nt(p01.positions_differ(a, b))
    f, t = ctx.call(glb.point_matrix_yukawa, np.array(a), np.array(b), al, lm)
    ctx.close(f, F, 1e-11*fs+1e-290, 'force (integer arrays)')
    ctx.close(t, T, 1e-11*ts+1e-290, 'torque (integer arrays)')

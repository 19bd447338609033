from solidkit import *
import newt.glib as glb, newt.gShapeGL as gl, newt.glibShapes as gs, newt.pg2Multi as pgm
import newt.qlm as ql, newt.qlmACH as ach, newt.bigQlm as bq
import newt.rotations as rot, newt.translations as trs, newt.translationRecurs as trr, newt.multipoleLib as mpl

check = Check('P38', 'Bodies of 1-3 solids and sources of 1-3 solids, each turned and moved, from every solid with known moments, through the '
              'whole chain shape moments - rotation - translation - conversion - force and torque.  Oracle: Newtonian sums over quadrature nodes of '
              'the same solids, placed with an independent rotation.  The series is cut at degree 5-9; the tolerance is the bound on its tail.  '
              'Non-trivial: the deviation from two point masses exceeds ten tolerances.')
fd = st.fixed_dictionaries
f01 = gen.fl(0.15, 0.5)


@st.composite
def solid(draw):
    k = draw(st.sampled_from(['sphere', 'cylinder', 'annulus', 'cone', 'iso', 'iso2', 'tri', 'rect', 'ngon', 'tet', 'tet2', 'pyr', 'arect', 'atrap', 'asec', 'aplate', 'points']))
    e = draw(st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(gen.angle(-7, 7), min_size=3, max_size=3), st.lists(gen.angle(-7, 7), min_size=3, max_size=3)))
    return dict(k=k, x=draw(st.lists(f01, min_size=4, max_size=4)), a=draw(gen.angle(-7, 7)), b=draw(gen.fl(0.2, math.pi)), m=draw(gen.pos(0.1, 3.0)),
                n=draw(st.integers(3, 8)), e=e)




def build(ctx, c, L):
    """(moments about the solid's own origin from the toolkit, independent nodes)."""
    k, x, a, b, m = c['k'], c['x'], c['a'], c['b'], c['m']
    DEG = L+1
    w = 0.2+0.8*b/math.pi
    if k == 'sphere':
        return ctx.call(ql.sphere, L, m, x[0]), mass(S.sphere(x[0], DEG), m)
    if k == 'cylinder':
        return ctx.call(ql.cylinder, L, m, x[0], x[1]), mass(S.annulus(-x[0]/2, x[0]/2, 0.0, x[1], 0.0, math.pi, DEG), m)
    if k == 'annulus':
        return ctx.call(ql.annulus, L, m, x[0], x[1]*0.6, x[1], a, b), mass(S.annulus(-x[0]/2, x[0]/2, x[1]*.6, x[1], a, b, DEG), m)
    if k == 'cone':
        return ctx.call(ql.cone, L, m, x[0], x[1], a, b), mass(S.frustum(0.0, x[0], x[1], 0.0, a, b, DEG), m)
    if k == 'iso':
        t = a
        v = [(0.0, 0.0), (x[2], -x[1]/2), (x[2], x[1]/2)]
        v = [(p*math.cos(t)-q*math.sin(t), p*math.sin(t)+q*math.cos(t)) for p, q in v]
        return ctx.call(ql.tri_iso_prism, L, m, x[0], x[1], x[2], a), mass(S.poly_prism(v, -x[0]/2, x[0]/2, DEG), m)
    if k == 'iso2':
        v = [(0.0, 0.0), (x[1]*math.cos(a-w), x[1]*math.sin(a-w)), (x[1]*math.cos(a+w), x[1]*math.sin(a+w))]
        return ctx.call(ql.tri_iso_prism2, L, m, x[0], x[1], a, w), mass(S.poly_prism(v, -x[0]/2, x[0]/2, DEG), m)
    if k == 'tri':
        v = [(0.0, 0.0), (x[1], -x[2]), (x[1], x[3])]
        return ctx.call(ql.tri_prism, L, m, x[0], x[1], -x[2], x[3]), mass(S.poly_prism(v, -x[0]/2, x[0]/2, DEG), m)
    if k == 'rect':
        return ctx.call(ql.rect_prism, L, m, x[0], x[1], x[2], a), mass(S.poly_prism(S.rect(x[1], x[2], a), -x[0]/2, x[0]/2, DEG), m)
    if k == 'ngon':
        s = x[1]*2*math.sin(math.pi/c['n'])
        return ctx.call(ql.ngon_prism, L, m, x[0], s, a, c['n']), mass(S.poly_prism(S.ngon(c['n'], s, a), -x[0]/2, x[0]/2, DEG), m)
    if k == 'tet':
        return ctx.call(ql.tetrahedron, L, m, *x[:3]), mass(S.tet([(0, 0, 0), (x[0], 0, 0), (0, x[1], 0), (0, 0, x[2])], DEG), m)
    if k == 'tet2':
        return ctx.call(ql.tetrahedron2, L, m, x[0], -x[1], x[2], x[3]), mass(S.tet([(0, 0, 0), (x[0], -x[1], 0), (x[0], x[2], 0), (0, 0, x[3])], DEG), m)
    if k == 'pyr':
        return ctx.call(ql.pyramid, L, m, *x[:3]), mass(S.pyramid(x[0], x[1], x[2], DEG), m)
    if k == 'arect':
        n = S.poly_prism(S.rect(x[0], x[1]), -x[2]/2, x[2]/2, DEG)
        return ctx.call(ach.rect_prism, L, m/n[:, 0].sum(), *x[:3]), mass(n, m)
    if k == 'atrap':
        n = S.poly_prism(S.trapezoid_poly(x[1], x[2], x[3]), -x[0]/2, x[0]/2, DEG)
        return ctx.call(ach.trapezoid, L, m/n[:, 0].sum(), *x), mass(n, m)
    if k == 'asec':
        n = S.segment(x[0], x[1], x[1]*0.4, DEG)
        return ctx.call(ach.cylindrical_section, L, m/n[:, 0].sum(), x[0], x[1], x[1]*0.4), mass(n, m)
    if k == 'aplate':
        n = S.platehole(x[0], x[1], a % 0.6, DEG)
        return ctx.call(ach.platehole, L, m/n[:, 0].sum(), x[0], x[1], a % 0.6), mass(n, m)
    g = np.random.default_rng(c['n'])
    P = np.column_stack([g.uniform(0.1, 1, c['n'])*m, g.uniform(-.5, .5, (c['n'], 3))])
    return ctx.call(pgm.qmoments, L, P), P


def mass(n, m):
    n = n.copy()
    n[:, 0] *= m/n[:, 0].sum()
    return n


def place(ctx, c, L, how):
    """Moments and nodes of one solid, turned."""
    q, n = build(ctx, c, L)
    if any(c['e']) or how % 2:
        if how % 3:
            q = ctx.call(rot.rotate_qlm, q, *c['e'])
        else:
            q = ctx.call(rot.rotate_qlm_Ds, q, ctx.call(rot.wignerDl, L, *c['e']))
        n = ref.move(n, ref.euler(*c['e']))
    return q, n


def reach(*ns):
    return max(math.sqrt((n[:, 1:]**2).sum(1).max()) for n in ns)


def newton(A, B):
    """Force and torque about the origin on A, and the sum of |terms|."""
    F, T = np.zeros(3), np.zeros(3)
    b, b2 = B[:, 1:], (B[:, 1:]**2).sum(1)
    for i in range(0, len(A), 512):
        m, a = A[i:i+512, 0], A[i:i+512, 1:]
        r2 = a @ (-2*b.T)
        r2 += b2
        r2 += (a**2).sum(1)[:, None]
        W = np.sqrt(r2)
        W *= r2
        np.divide(B[:, 0], W, out=W)
        f = m[:, None]*(W @ b-W.sum(1)[:, None]*a)
        F += f.sum(0)
        T += np.cross(a, f).sum(0)
    return ref.G*F, ref.G*T


scene = dict(body=st.lists(st.tuples(solid(), gen.vec(0.4)).map(list), min_size=1, max_size=2),
             src=st.lists(st.tuples(solid(), gen.direction(gen.COARSE), gen.fl(3.5, 6.0)).map(list), min_size=1, max_size=2),
             how=st.integers(0, 11), th=st.lists(gen.fl(-7, 7), min_size=1, max_size=1))


@check.clause(fd(dict(scene, L=st.sampled_from([5, 5, 6, 7, 8, 9]))), quick=320, thorough=8000, shards=8)
def chain(c, ctx):
    L, how = c['L'], c['how']
    if any(s[0]['k'].startswith('a') and s[0]['k'] != 'annulus' for s in c['body']+c['src']):
        L = 5
    lib = trs if how % 4 == 0 and L <= 6 else trr
    q = np.zeros((L+1, 2*L+1), complex)
    A = []
    for s, d in c['body']:
        q1, n = place(ctx, s, L, how)
        q = q+ctx.call(lib.translate_qlm, q1, np.array(d))
        A.append(ref.move(n, None, d))
    A = np.vstack(A)
    Q = np.zeros((L+1, 2*L+1), complex)
    B = []
    ra, rs = reach(A), 0
    tail = 0.0
    MA = np.abs(A[:, 0]).sum()
    for s, dr, D in c['src']:
        q1, n = place(ctx, s, L, how)
        d = np.array(dr)*D
        Q = Q+ctx.call(lib.translate_q2Q, q1, d)
        B.append(ref.move(n, None, d))
        rs = reach(n)
        tail += bound(MA, np.abs(n[:, 0]).sum(), ra, rs, D, L)
    B = np.vstack(B)
    ctx.label(f'L{L}', *(s[0]['k'] for s in c['body']+c['src']))
    what = f'{"+".join(s[0]["k"] for s in c["body"])} near {"+".join(s[0]["k"] for s in c["src"])}, degree {L}'
    F, T = newton(A, B)
    f = ctx.call(mpl.multipole_force, L, q, Q, 0, 0, 0)
    ctx.close(f, F, tail, f'force on {what}')
    n, tc, ts = ctx.call(mpl.torque_lm, q, Q)
    ctx.close(n.sum(), T[2], tail*ra, f'torque on {what}')
    th = np.array(c['th'])
    w = np.array([newton(ref.move(A, ref.rotm(t, [0, 0, 1])), B)[1][2] for t in th])
    ctx.close(ctx.call(mpl.torques_at_angle, tc, ts, th), w, tail*ra, f'torque on {what} at turntable angles {th.tolist()}')
    # two point masses in place of the bodies
    mono = newton(np.array([[MA, 0, 0, 0]]), B)[0]
    ctx.nt(np.abs(F-mono).max() > 10*tail)


def bound(ma, mb, ra, rb, D, L):
    """Bound on the force from the degrees left out, plus rounding."""
    p = (ra+rb)/D
    t = sum((n+1)*p**n for n in range(L, L+60)) if p < 0.95 else 1e3
    return ref.G*ma*mb/D**2*(t+1e-9)


@check.clause(fd(dict(s=solid(), t=solid(), d=gen.vec(0.5), e=st.lists(gen.angle(-7, 7), min_size=3, max_size=3), dr=gen.direction(gen.COARSE), D=gen.fl(3.5, 6.0),
                      L=st.sampled_from([5, 6, 7, 8]), kind=st.sampled_from(['inner-inner', 'inner-outer', 'force']), th=st.lists(gen.fl(-7, 7), min_size=1, max_size=1))),
              quick=320, thorough=8000, shards=8)
def moved(c, ctx):
    """The placement done by torque() and multipole_force() themselves."""
    L, kind, d, e = c['L'], c['kind'], np.array(c['d']), c['e']
    if any(s['k'].startswith('a') and s['k'] != 'annulus' for s in (c['s'], c['t'])):
        L = 5
    q, a = build(ctx, dict(c['s']), L)
    s, b = place(ctx, c['t'], L, 1)
    D = np.array(c['dr'])*c['D']
    th = np.array(c['th'])
    spin = [ref.rotm(t, [0, 0, 1]) for t in th]
    E = ref.euler(*e)
    MA, MB = np.abs(a[:, 0]).sum(), np.abs(b[:, 0]).sum()
    what = f'{c["s"]["k"]} near {c["t"]["k"]}, degree {L}, {kind}'
    ctx.label(kind, f'L{L}')
    if kind == 'inner-outer':
        # the source turns about its own z, is tilted by e and moved to D
        n, tc, ts = ctx.call(mpl.torque, q, s, e, D, kind)
        tail = bound(MA, MB, reach(a), reach(b), c['D'], L)*reach(a)
        w = np.array([newton(a, ref.move(ref.move(b, R), E, D))[1][2] for R in spin])
        got = ctx.call(mpl.torques_at_angle, tc, ts, th)
    else:
        Q = ctx.call(trr.translate_q2Q, s, D)
        B = ref.move(b, None, D)
        tail = bound(MA, MB, reach(a)+np.linalg.norm(d), reach(b), c['D'], L)
        if kind == 'force':
            got = ctx.call(mpl.multipole_force, L, q, Q, *d)
            w = newton(ref.move(a, None, d), B)[0]
            m = ctx.call(mpl.multipole_force_m, L, q, Q, *d)
            ctx.close(m.sum(1), w, tail, f'sum of multipole_force_m on {what}')
        else:
            n, tc, ts = ctx.call(mpl.torque, q, Q, e, d)
            tail *= reach(a)+np.linalg.norm(d)
            w = np.array([newton(ref.move(ref.move(a, R), E, d), B)[1][2] for R in spin])
            got = ctx.call(mpl.torques_at_angle, tc, ts, th)
    ctx.close(got, w, tail, what)
    ctx.nt(np.abs(w).max() > 10*tail)


@check.clause(fd(dict(k=st.sampled_from(['annulus', 'sphere']), x=st.lists(gen.fl(0.2, 0.8), min_size=3, max_size=3), m=gen.pos(0.1, 3.0), a=gen.angle(-7, 7), b=gen.fl(0.2, math.pi),
                      r=gen.fl(4.0, 6.0), dr=gen.direction(gen.COARSE), s=solid(), d=gen.vec(0.4))), quick=240, thorough=6000, shards=8)
def outer_solids(c, ctx):
    """Sources given by closed-form outer moments."""
    L, x, r = 5, c['x'], c['r']
    q, A = place(ctx, c['s'], L, 1)
    q = ctx.call(trr.translate_qlm, q, np.array(c['d']))
    A = ref.move(A, None, c['d'])
    if c['k'] == 'sphere':
        Q, v = ctx.call(bq.sphere, L, c['m'], x[0], *[r*y for y in c['dr']]), None
        B = ref.move(mass(S.sphere(x[0], 6), c['m']*4/3*math.pi*x[0]**3), None, [r*y for y in c['dr']])
    else:
        B = S.annulus(0.0, x[0], r, r+x[1], c['a'], c['b'], 10)
        B[:, 0] *= c['m']
        Q = ctx.call(bq.annulus, L, c['m'], x[0], r, r+x[1], c['a'], c['b'])
    MA, MB = np.abs(A[:, 0]).sum(), np.abs(B[:, 0]).sum()
    tail = bound(MA, MB, reach(A), 0.0, r-(x[0] if c['k'] == 'sphere' else 0), L)
    F, T = newton(A, B)
    what = f'{c["s"]["k"]} near {c["k"]}'
    ctx.label(c['k'])
    ctx.close(ctx.call(mpl.multipole_force, L, q, Q, 0, 0, 0), F, tail, f'force on {what}')
    n, tc, ts = ctx.call(mpl.torque_lm, q, Q)
    ctx.close(n.sum(), T[2], tail*reach(A), f'torque on {what}')
    ctx.nt(np.abs(T[2]) > 10*tail*reach(A))


@check.clause(fd(dict(x=st.lists(gen.fl(0.3, 0.9), min_size=3, max_size=3), m=gen.pos(0.1, 3.0), th=gen.angle(-7, 7), ax=gen.direction(), d=gen.vec(0.5),
                      B=gen.shell_points(1, 4, 2.5, 5.0))), quick=240, thorough=6000, shards=4)
def point_route(c, ctx):
    """A block as Gauss-Legendre points, turned and moved as points: force and torque by pair sums, and moments of the points."""
    x, m, B = c['x'], c['m'], arr(c['B'])
    p, n = ctx.call(gl.rectangle, m, *x, 8, 8, 8), mass(S.poly_prism(S.rect(x[0], x[1]), -x[2]/2, x[2]/2, 12), m)
    R = ref.rotm(c['th'], c['ax'])
    n = ref.move(n, R, c['d'])
    F, T = newton(n, B)
    p = ctx.call(glb.rotate_point_array, p, c['th'], np.array(c['ax']))
    p = ctx.call(glb.translate_point_array, p, np.array(c['d']))
    f, t = ctx.call(glb.point_matrix_gravity, p, B)
    sc = ref.G*m*np.sum(np.abs(B[:, 0])/(np.linalg.norm(B[:, 1:], axis=1)-reach(n))**2)
    ctx.close(f, F, sc*1e-6, 'force on the points of a block')
    ctx.close(t, T, sc*1e-6, 'torque on the points of a block')
    L = 8
    q, Q = ctx.call(pgm.qmoments, L, p), ctx.call(pgm.Qmomentsb, L, B)
    ctx.close(q, ref.inner(L, n), 1e-9*m*4.0**np.arange(L+1)[:, None]*np.ones((1, 2*L+1)), 'moments of the points of a block')
    ctx.close(ctx.call(mpl.multipole_force, L, q, Q, 0, 0, 0), F, bound(m, np.abs(B[:, 0]).sum(), reach(n), 0.0, np.linalg.norm(B[:, 1:], axis=1).min(), L), 'force from the moments of the points')
    ctx.nt(np.linalg.norm(F) > 1e-3*sc)

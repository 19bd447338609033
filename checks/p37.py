from common import *
import contextlib, io
import numkit
import newt.glib as glb, newt.glibShapes as gs, newt.gShapeGL as gl, newt.pg2Multi as pgm
import newt.qlm as ql, newt.qlmACH as ach, newt.qlmNum as qn, newt.bigQlm as bq, newt.bigQlmNum as bqn
import newt.translations as trs, newt.translationRecurs as trr, newt.multipoleLib as mpl
import octave

check = Check('P37', 'Every numerical routine (point gravity, grids, moments, translations, forces, torques, and the MATLAB point routines) called '
              'twice, the second time with all lengths in units 2^-40 to 2^40 (or a few decades) and all masses or densities in another unit.  '
              'Oracle: the dimension of the result.  Non-trivial: the unit of length changes by more than a factor 1000 or is not a power of two.',
              assumptions=['routines of qlmNum and bigQlmNum run with the Gauss rule of checks/numkit.py (scipy has an absolute tolerance of its own)'])
NUM = (qn, bqn)
# arguments: (kind, maker(x, n)); x: 12 floats in [0.25, 1], n: 6 integers.  Kinds: L length, M mass, D density, C plain number,
# P points, q inner table, Q outer table, V vector.  Result: see RESULT.
OPS = []


def op(fn, res, *a, exact=False):
    OPS.append((fn, res, a, exact))


def x_(i, f=1.0, o=0.0):
    return lambda x, n: o+f*x[i]


def sgn(i, j):
    return lambda x, n: x[i] if n[j] % 2 else -x[i]


def ang(i, lo, hi):
    return lambda x, n: lo+(hi-lo)*(x[i]-0.25)/0.75


def cnt(i, lo, k):
    return lambda x, n: lo+n[i] % k


def deg(k=6):
    return ('C', lambda x, n: n[0] % k)


def pts(s, k=4, away=0.0):
    def f(x, n):
        g = np.random.default_rng([s]+[int(v*1e6) for v in x[:4]])
        m = 1+n[1] % k
        p = g.uniform(-1, 1, (m, 3))
        p[:, 2] += away
        if n[2] % 4 == 0:
            p[:, n[3] % 3] *= 1e-3
        return np.column_stack([g.uniform(0.2, 2, m), p])
    return f


def tab(s, k=6):
    return lambda x, n: mk_table(dict(L=n[0] % k, seed=s+int(1e6*x[0])))


def vec(x, n):
    v = np.array([sgn(5, 1)(x, n), sgn(6, 2)(x, n), sgn(7, 3)(x, n)])
    k = n[4] % 6
    if k < 3:
        v[[i for i in range(3) if i != k]] *= 0.0 if n[5] % 2 else 1e-4
    return v


M, D = ('M', x_(0, 3.0)), ('D', x_(0, 3.0))
La, Lb, Lc = ('L', x_(1)), ('L', x_(2)), ('L', x_(3))
Ri, Ro = ('L', x_(4, 0.9)), ('L', x_(4, 1.0, 0.2))
ph, hf, wd = ('C', ang(5, -6, 6)), ('C', ang(6, 0.1, math.pi)), ('C', ang(6, 0.1, 1.2))
I, J, K = ('C', cnt(1, 1, 5)), ('C', cnt(2, 1, 5)), ('C', cnt(3, 1, 5))
I3, J3, K3 = ('C', cnt(1, 3, 5)), ('C', cnt(2, 3, 5)), ('C', cnt(3, 3, 5))
y1, y2 = ('L', lambda x, n: -x[7]), ('L', x_(8, 0.9, 0.1))
P1, P2 = ('P', pts(1)), ('P', pts(2, away=3.0))
one = ('P1', lambda x, n: pts(1, 1)(x, n)[0])
lam, alp = ('L', x_(9, 3.0)), ('C', x_(10, 2.0, -1.0))

op(glb.gmmr2_array, 'force', one, P2)
op(glb.point_matrix_gravity, 'force,torque', P1, P2)
op(glb.yukawa_array, 'force', one, P2, alp, lam)
op(glb.point_matrix_yukawa, 'force,torque', P1, P2, alp, lam)
op(glb.translate_point_array, 'pts', P1, ('V', vec))
op(glb.rotate_point_array, 'pts', P1, ph, ('V', vec))
op(glb.rotate_point_array, 'pts', P1, ph, ('C', vec))
op(gs.cart_2_cyl, 'cyl', ('X', lambda x, n: pts(4)(x, n)[:, 1:]))
op(gs.cyl_2_cart, 'xyz', ('Y', lambda x, n: np.array([[x[0], ph[1](x, n), x[2]]])))
for f in (gs.rectangle, ):
    op(f, 'pts', M, La, Lb, Lc, I, J, K, exact=True)
op(gs.sphere, 'pts', M, La, ('C', cnt(1, 4, 6)), exact=True)
op(gs.annulus, 'pts', M, Ri, Ro, La, ('C', cnt(1, 6, 6)), J, exact=True)
op(gs.cone, 'pts', M, La, Lb, hf, ('C', cnt(1, 6, 6)), ('C', cnt(2, 4, 4)), exact=True)
op(gs.wedge, 'pts', M, Ri, Ro, La, hf, ('C', cnt(1, 8, 6)), J, exact=True)
op(gs.trapezoid, 'pts', M, Ri, Ro, La, wd, ('C', cnt(1, 8, 6)), J, exact=True)
op(gs.outer_cone, 'pts', M, Ri, Ro, La, hf, ('C', cnt(1, 8, 6)), ('C', cnt(2, 5, 4)), exact=True)
op(gs.tri_prism, 'pts', M, La, y1, y2, Lb, ('C', cnt(1, 6, 4)), ('C', cnt(2, 6, 4)), J, exact=True)
op(gs.tetrahedron, 'pts', M, La, y1, y2, Lb, ('C', cnt(1, 6, 4)), ('C', cnt(2, 6, 4)), ('C', cnt(3, 6, 4)), exact=True)
op(gs.ngon_prism, 'pts', M, La, Lb, I3, ('C', cnt(2, 6, 4)), J, exact=True)
op(gs.pyramid, 'pts', M, La, Lb, Lc, ('C', cnt(1, 6, 4)), ('C', cnt(2, 6, 4)), ('C', cnt(3, 6, 4)), exact=True)
op(gs.cylhole, 'pts', M, Ri, Ro, ('C', cnt(1, 6, 4)), ('C', cnt(2, 6, 4)), exact=True)
op(gs.platehole, 'pts', M, La, Lb, wd, ('C', cnt(1, 8, 4)), ('C', cnt(2, 8, 4)), ('C', cnt(3, 8, 4)), exact=True)
op(gl.rectangle, 'pts', M, La, Lb, Lc, I, J, K, exact=True)
op(gl.sphere, 'pts', M, La, I, exact=True)
op(gl.annulus, 'pts', M, Ri, Ro, La, I, J, exact=True)
op(gl.cone, 'pts', M, La, Lb, I, J, exact=True)
op(gl.wedge, 'pts', M, Ri, Ro, La, hf, I, J, exact=True)
op(gl.tri_prism, 'pts', M, La, y1, y2, Lb, I, J, K, exact=True)
op(pgm.qmoments, 'q', deg(), P1)
op(pgm.Qmomentsb, 'Q', deg(), P2)
op(pgm.imoments, 'mass', deg(5), lam, P1)
for l in range(4):
    op(pgm.qmoment, f'q{l}', ('C', lambda x, n, l=l: l), ('C', lambda x, n, l=l: n[3] % (2*l+1)-l), P1)
    op(pgm.Qmomentb, f'Q{l}', ('C', lambda x, n, l=l: l), ('C', lambda x, n, l=l: n[3] % (2*l+1)-l), P2)
op(ql.sphere, 'q', deg(), M, La)
op(ql.cylinder, 'q', deg(9), M, La, Lb)
op(ql.annulus, 'q', deg(9), M, La, Ri, Ro, ph, hf)
op(ql.cone, 'q', deg(9), M, La, Lb, ph, hf)
op(ql.tri_iso_prism, 'q', deg(9), M, La, Lb, Lc, ph)
op(ql.tri_iso_prism2, 'q', deg(9), M, La, Lb, ph, wd)
op(ql.tri_prism, 'q', deg(9), M, La, Lb, y1, y2)
op(ql.rect_prism, 'q', deg(9), M, La, Lb, Lc, ph)
op(ql.ngon_prism, 'q', deg(9), M, La, Lb, ph, I3)
op(ql.tetrahedron, 'q', deg(), M, La, Lb, Lc)
op(ql.tetrahedron2, 'q', deg(), M, La, y1, y2, Lb)
op(ql.pyramid, 'q', deg(), M, La, Lb, Lc)
op(ach.rect_prism, 'dq', deg(7), D, La, Lb, Lc)
op(ach.annulus, 'dq', deg(7), D, La, Ri, Ro, ph, hf)
op(ach.cone, 'dq', deg(7), D, La, Ro, Ri)
op(ach.cone2, 'dq', deg(7), D, La, Ro, Ri)
op(ach.tri_prism, 'dq', deg(7), D, La, Lb, y1, y2)
op(ach.trapezoid, 'dq', deg(7), D, La, Lb, Lc, Ro)
op(ach.cylindrical_section, 'dq', deg(7), D, La, Ro, Ri)
op(ach.tetrahedron, 'dq', deg(7), D, La, Lb, Lc)
op(ach.cylhole, 'dq', deg(7), D, Ri, Ro)
op(ach.cylhole2, 'dq', deg(7), D, Ri, Ro)
op(ach.platehole, 'dq', deg(7), D, La, Lb, wd)
op(ach.pyramid, 'dq', deg(7), D, La, Lb, Lc)
op(qn.cyl_mom, 'dq', deg(4), D, hf, Ri, Ro, y1, y2)
op(qn.cone_mom, 'dq', deg(4), D, hf, Ri, Ro, La)
op(qn.trap_mom, 'dq', deg(4), D, wd, Ri, Ro, y1, y2)
op(qn.steinmetz, 'dq', deg(4), D, Ri, Ro)
op(qn.platehole, 'dq', deg(4), D, La, Lb, wd)
op(bqn.annulus, 'dQ', deg(4), D, y1, y2, La, ('L', x_(1, 1.0, 0.3)), hf)
op(bqn.outer_cone, 'dQ', deg(4), D, Lb, La, ('L', x_(1, 1.0, 0.3)), hf)
op(bqn.trapezoid, 'dQ', deg(4), D, y1, y2, La, ('L', x_(1, 1.0, 0.3)), wd)
op(bq.sphere, 'dQ', deg(), D, ('L', x_(1, 0.3)), ('L', sgn(5, 1)), ('L', sgn(6, 2)), ('L', sgn(7, 3)))
op(bq.annulus, 'dQ', deg(6), D, La, Lb, ('L', x_(2, 1.0, 0.3)), ph, hf)
for lib in (trs, trr):
    op(lib.translate_qlm, 'q', ('q', tab(1)), ('V', vec))
    op(lib.translate_Qlmb, 'Q', ('Q', tab(1)), ('V', vec))
    op(lib.translate_q2Q, 'Q', ('q', tab(1)), ('V', vec))
op(mpl.force_basis, 'basis,basis,basis', ('C', cnt(0, 1, 6)), ('L', sgn(5, 1)), ('L', sgn(6, 2)), ('L', sgn(7, 3)))
for f in (mpl.multipole_force, mpl.multipole_force_m):
    op(f, 'force', ('C', lambda x, n: n[0] % 5), ('q', tab(1, 5)), ('Q', tab(7, 5)), ('L', sgn(5, 1)), ('L', sgn(6, 2)), ('L', sgn(7, 3)))
op(mpl.torque_lm, 'torque,torque,torque', ('q', tab(1)), ('Q', tab(7)))
for t in ('inner-inner', 'inner-outer', 'outer-outer'):
    op(mpl.torque, 'torque,torque,torque', ('q', tab(1, 5)), ('q' if t == 'inner-outer' else 'Q', tab(7, 5)),
       ('C', lambda x, n: (ph[1](x, n), hf[1](x, n), x[2])), ('V', vec), ('C', lambda x, n, t=t: t))
MAT = []


def mat(fn, res, *a, exact=False):
    MAT.append((fn, res, a, exact))


mat('pointMatrixGravity', 'force,torque', P1, P2)
mat('Gmmr2Array', 'force', ('P', pts(1, 1)), P2)
mat('translatePMArray', 'pts', P1, ('V', vec))
mat('rotatePMArray', 'pts', P1, ph, ('V', vec))
mat('rotatePMArray', 'pts', P1, ph, ('C', vec))
for l in range(1, 5):
    mat('computeMoments', f'q{l}', ('C', lambda x, n, l=l: l), ('C', lambda x, n, l=l: n[3] % (l+1)), P1)
mat('genPointMassRect', 'pts', M, La, Lb, Lc, I, J, K)
mat('genPointMassAnnlSheet', 'pts', M, Ri, Ro, La, I, ('C', cnt(2, 8, 5)), exact=True)
mat('genPointMassLine', 'pts', M, La, Lb, Lc, y1, I)
mat('genPointMassXRing', 'pts', M, La, I)
mat('genPointMassArrayFrom2DArray', 'dpts', ('L', lambda x, n: np.random.default_rng(n[0]).uniform(0.1, 2, (1+n[1] % 4, 1+n[2] % 4))), La, Lb, ('L', x_(3, 0.3)), D, exact=True)


def scale(kind, v, u, w):
    if kind == 'C':
        return v
    if kind == 'L':
        return v*u
    if kind == 'V':
        return np.asarray(v)*u
    if kind in 'MD':
        return v*w
    if kind in ('P', 'P1'):
        v = np.array(v)
        v[..., 0] *= w
        v[..., 1:] *= u
        return v
    if kind == 'X':
        return v*u
    if kind == 'Y':
        return v*[u, 1.0, u]
    l = np.arange(len(v))[:, None]
    return v*w*(float(u)**l if kind == 'q' else float(u)**(-l-1))


def unscale(kind, r, u, w):
    """The result expressed in the first units again."""
    r = np.array(r)
    if kind in ('q', 'dq', 'Q', 'dQ', 'basis'):
        l = np.arange(len(r))[:, None]
        e = {'q': l, 'dq': l+3, 'Q': -l-1, 'dQ': 2-l, 'basis': l-1}[kind]
        for i in range(len(r)):
            f = float(u)**int(np.ravel(e)[i])*(1.0 if kind == 'basis' else w)
            r[i] = r[i]/f
        return r
    if kind == 'force':
        return r/w/w*u*u
    if kind == 'torque':
        return r/w/w*u
    if kind in ('pts', 'dpts'):
        r[:, 0] /= w if kind == 'pts' else w*u**3
        r[:, 1:] /= u
        return r
    if kind == 'mass':
        return r/w
    if kind == 'cyl':
        return r/[u, 1.0, u]
    if kind == 'xyz':
        return r/u
    if kind[0] == 'q':
        return r/w/float(u)**int(kind[1:])
    return r/w*float(u)**(int(kind[1:])+1)


def call(ctx, fn, args, outs, refusable):
    if isinstance(fn, str):
        r = ctx.call(octave.call, fn, *args, nargout=outs)
        return [r] if outs == 1 else r
    m = numkit.fast(12) if any(fn.__module__ == q.__name__ for q in NUM) else contextlib.redirect_stdout(io.StringIO())
    with m:
        if refusable:
            try:
                r = fn(*args)
            except Exception as e:
                return type(e).__name__
        else:
            r = ctx.call(fn, *args)
    return list(r) if isinstance(r, tuple) else [r]


def body(c, ctx, ops):
    fn, res, margs, exact = ops[c['op'] % len(ops)]
    u, w = c['u'], c['w']
    if exact and math.frexp(u)[0] != 0.5:
        u = 2.0**round(math.log2(u))
    x, n = c['x'], c['n']
    name = fn if isinstance(fn, str) else f'{fn.__module__}.{fn.__name__}'
    one_, two = [], []
    for kind, mk in margs:
        v = mk(x, n)
        one_.append(scale(kind, v, 1.0, 1.0))
        two.append(scale(kind, v, u, w))
    res = res.split(',')
    refusable = not isinstance(fn, str) and fn.__module__ in (gs.__name__, gl.__name__)
    a = call(ctx, fn, one_, len(res), refusable)
    b = call(ctx, fn, two, len(res), refusable)
    pow2 = math.frexp(u)[0] == 0.5
    ctx.nt(not pow2 or abs(math.log2(u)) > 10)
    ctx.label(name.split('.')[-2] if '.' in name else 'matlab', 'power of two' if pow2 else 'decimal')
    what = f'{name} in units {u} of length, {w} of mass'
    if isinstance(a, str) or isinstance(b, str):
        ctx.check(isinstance(a, str) and isinstance(b, str), lambda: f'{what}: refused in one unit only ({a if isinstance(a, str) else b})')
        return
    for i, (k, p, q) in enumerate(zip(res, a, b)):
        p, q = np.asarray(p), np.asarray(q)
        ctx.check(p.shape == q.shape, lambda: f'{what}: shape {q.shape}, in units of 1 {p.shape}')
        if not p.size:
            continue
        q = unscale(k, q, u, w)
        ctx.close(q, p, tol(fn, k, p, x, one_), f'{what}, result {i}')


def tol(fn, k, p, x, args):
    """Rounding: all lengths are of order 1, so are the terms of every sum."""
    if k in ('q', 'dq', 'Q', 'dQ', 'basis', 'mass'):
        g = 1e-10 if not isinstance(fn, str) and fn.__module__ in (qn.__name__, bqn.__name__) else 1e-11
        r = 1e-8 if fn in (trr.translate_qlm, trr.translate_Qlmb, trr.translate_q2Q) else 1e-11    # its recursions lose digits
        if getattr(fn, '__name__', '').startswith('translate_') and pole_err(args[-1])[0] > 1e-13:
            g, r = 1e-7, 1e-7     # along the z-axis: an angle from arccos(z/r)
        return np.maximum(g, r*np.abs(p).max(1, keepdims=True))*np.ones_like(p, float)*4.0**np.arange(len(p))[:, None]
    return 1e-10*(np.abs(p).max()+(1 if k in ('pts', 'dpts', 'xyz', 'cyl') or k[0] in 'qQ' else 0))


fd = st.fixed_dictionaries
UNIT = st.one_of(st.integers(-40, 40).map(lambda k: 2.0**k), st.integers(-40, 40).map(lambda k: 2.0**k), st.sampled_from([1e-3, 0.0254, 100.0, 1e6, 1e-6, 1e-9]))
MASS = st.one_of(st.just(1.0), st.integers(-60, 60).map(lambda k: 2.0**k), st.sampled_from([1e-3, 1e-12, 7850.0, 1e9]))
case = dict(u=UNIT, w=MASS, x=st.lists(gen.fl(0.25, 1.0), min_size=12, max_size=12), n=st.lists(st.integers(0, 59), min_size=6, max_size=6))


@check.clause(fd(dict(case, op=st.integers(0, len(OPS)-1))), quick=16000, thorough=300000, shards=8)
def units(c, ctx):
    body(c, ctx, OPS)


@check.clause(fd(dict(case, op=st.integers(0, len(MAT)-1))), quick=1600, thorough=20000, shards=4)
def units_matlab(c, ctx):
    body(c, ctx, MAT)

from common import *
import contextlib, io
import numkit
import newt.glib as glb, newt.glibShapes as gs, newt.gShapeGL as gl, newt.pg2Multi as pgm
import newt.qlm as ql, newt.qlmACH as ach, newt.qlmNum as qn, newt.bigQlm as bq, newt.bigQlmNum as bqn
import newt.rotations as rot, newt.translations as trs, newt.translationRecurs as trr
import newt.multipoleLib as mpl, newt.clebschGordan as cg

check = Check('P35', 'Histories of 2-10 calls drawn from 90 numerical routines on a shared pool of point arrays, moment tables, vectors and matrix '
              'lists (half of the histories with write-protected inputs); every history is run twice, the second time in another order, '
              'after every returned array has been overwritten.  Non-trivial: at least two calls sharing an input array.')
E = [0.0, 0.4, -1.1, 2.0, 3.5, -4.0, 0.4003, 0.4+3e-7, -0.4, 2.0-1e-9]
LEN = [0.4, 0.7, 1.0, 1.6, 2.3, 0.70004, 1.0+2e-9, 1.6-3e-6]


class Pool:
    def __init__(self, seed, frozen):
        g = np.random.default_rng(seed)
        self.pts = [np.column_stack([g.uniform(0.2, 2, n), g.uniform(-2, 2, (n, 3))]) for n in (1, 3, 5)]
        self.pts.append(np.array([1.3, 0.4, -0.8, 0.9]))          # a single row
        self.pts.append(np.asfortranarray(np.column_stack([g.uniform(0.2, 2, 4), g.uniform(3, 5, (4, 3))])))
        self.tab = [mk_table(dict(L=L, seed=int(g.integers(10**6))), b) for L, b in ((1, 1.0), (2, 0.5), (3, 1.0), (3, 0.4), (4, 0.5))]
        self.vec = [g.uniform(-1, 1, 3), np.array([0.0, 0.0, 0.8]), np.array([0.5, 0.0, 0.0]), g.uniform(1, 3, 3), np.array([0.0, 0.0, -1.2])]
        def cx(n):
            return g.standard_normal((n, n))+1j*g.standard_normal((n, n))
        self.Ds = [[cx(2*l+1) for l in range(L+1)] for L in (1, 2, 3, 4)]
        self.T = [[g.standard_normal((L+1-m, L+1-m)) for m in range(L+1)] for L in (1, 2, 3, 4)]
        self.xyz = [g.uniform(-2, 2, (4, 3)), g.uniform(0.2, 2, (2, 3))]
        self.ang = [np.linspace(0, 6, 7), g.uniform(-3, 3, 5)]
        self.tc = [g.standard_normal(n)+1j*g.standard_normal(n) for n in (3, 4)]
        if frozen:
            for a in self.all():
                a.flags.writeable = False

    def all(self):
        return self.pts+self.tab+self.vec+[d for D in self.Ds+self.T for d in D]+self.xyz+self.ang+self.tc

    def snap(self):
        return [a.copy() for a in self.all()], [len(D) for D in self.Ds+self.T]


def pick(seq, k):
    return seq[k % len(seq)]


def P(p, k): return pick(p.pts, k)
def Pm(p, k): return pick(p.pts[:3]+p.pts[4:], k)
def T(p, k): return pick(p.tab, k)
def V(p, k): return pick(p.vec, k)
def A(p, k): return pick(E, k)
def R(p, k): return pick(LEN, k)
def R2(p, k): return 3.0+pick(LEN, k)
def I1(p, k): return 1+k % 4
def I3(p, k): return 3+k % 4
def L3(p, k): return k % 4
def L5(p, k): return k % 6
def W(p, k): return pick([0.3, 0.9, math.pi/2, math.pi], k)
def Wh(p, k): return pick([0.3, 0.9, 1.2], k)
def Ms(p, k): return pick([1.0, 2.5, -0.7], k)
def DS(p, k): return pick(p.Ds, k)
def TM(p, k): return pick(p.T, k)
def XYZ(p, k): return pick(p.xyz, k)
def Far(p, k): return p.pts[4]


TT = object()      # table with a matrix list of its own degree
OPS = [
    (glb.gmmr2_array, lambda p, k: p.pts[0][0], Far), (glb.yukawa_array, lambda p, k: p.pts[0][0], Far, R, R),
    (glb.point_matrix_gravity, P, Far), (glb.point_matrix_gravity, Far, P), (glb.point_matrix_yukawa, P, Far, Ms, R),
    (glb.translate_point_array, P, V), (glb.rotate_point_array, P, A, V), (glb.translate_point_array, P, lambda p, k: np.zeros(3)),
    (gs.cart_2_cyl, XYZ), (gs.cyl_2_cart, XYZ),
    (gs.sphere, Ms, R, I3), (gs.rectangle, Ms, R, R, R, I1, I1, I1), (gs.annulus, Ms, R, R2, R, I3, I1), (gs.cone, Ms, R, R, Wh, I3, I3),
    (gs.wedge, Ms, R, R2, R, Wh, I3, I1), (gs.trapezoid, Ms, R, R2, R, Wh, I3, I1), (gs.outer_cone, Ms, R, R2, R, Wh, I3, I3),
    (gs.tri_prism, Ms, R, A, R2, R, I3, I3, I1), (gs.tetrahedron, Ms, R, A, R2, R, I3, I3, I3), (gs.ngon_prism, Ms, R, R, I3, I3, I1),
    (gs.pyramid, Ms, R, R, R, I3, I3, I3), (gs.cylhole, Ms, R, R2, I3, I3), (gs.platehole, Ms, R, R, Wh, I3, I3, I3),
    (gl.rectangle, Ms, R, R, R, I1, I1, I1), (gl.sphere, Ms, R, I1), (gl.annulus, Ms, R, R2, R, I1, I1), (gl.cone, Ms, R, R, I1, I1),
    (gl.wedge, Ms, R, R2, R, Wh, I1, I1), (gl.tri_prism, Ms, R, A, R2, R, I1, I1, I1),
    (pgm.qmoment, L3, lambda p, k: 0, Pm), (pgm.Qmomentb, L3, lambda p, k: 0, Pm), (pgm.imoment, L3, lambda p, k: 0, R, Pm),
    (pgm.qmoments, L3, Pm), (pgm.Qmomentsb, L3, Pm), (pgm.imoments, L3, R, Pm),
    (ql.sphere, L5, Ms, R), (ql.cylinder, L5, Ms, R, R), (ql.annulus, L5, Ms, R, R, R2, A, W), (ql.cone, L5, Ms, R, R, A, W),
    (ql.tri_iso_prism, L5, Ms, R, R, R, A), (ql.tri_iso_prism2, L5, Ms, R, R, A, Wh), (ql.tri_prism, L5, Ms, R, R, A, R2), (ql.rect_prism, L5, Ms, R, R, R, A),
    (ql.ngon_prism, L5, Ms, R, R, A, I3), (ql.tetrahedron, L5, Ms, R, R, R), (ql.tetrahedron2, L5, Ms, R, A, R2, R), (ql.pyramid, L5, Ms, R, R, R),
    (ach.rect_prism, L5, Ms, R, R, R), (ach.annulus, L5, Ms, R, R, R2, A, W), (ach.cone, L5, Ms, R, R, R2), (ach.cone2, L5, Ms, R, R, R2),
    (ach.tri_prism, L5, Ms, R, R, A, R2), (ach.trapezoid, L5, Ms, R, R, R2, R), (ach.cylindrical_section, L5, Ms, R, R2, R), (ach.tetrahedron, L5, Ms, R, R, R),
    (ach.cylhole, L5, Ms, R, R2), (ach.cylhole2, L5, Ms, R, R2), (ach.platehole, L5, Ms, R, R, Wh), (ach.pyramid, L5, Ms, R, R, R),
    (qn.cyl_mom, I1, Ms, W, R, R2, R, R2), (qn.cone_mom, I1, Ms, W, R, R2, R), (qn.trap_mom, I1, Ms, Wh, R, R2, R, R2), (qn.steinmetz, I1, Ms, R, R2),
    (qn.platehole, I1, Ms, R, R, Wh), (bqn.annulus, I1, Ms, R, R2, R, R2, W), (bqn.outer_cone, I1, Ms, R, R, R2, W), (bqn.trapezoid, I1, Ms, R, R2, R, R2, Wh),
    (bq.sphere, L5, Ms, R, R2, R, A), (bq.annulus, L5, Ms, R, R, R2, A, W),
    (rot.dlmn, L5, A), (rot.wignerDl, L5, A, A, A), (rot.rotate_qlm, T, A, A, A), (rot.rotate_qlm_Ds, TT, DS), (rot.rotate_qlm_Ds, TT, DS, lambda p, k: True),
    (rot.rotate_qlm_Ds_right, TT, DS), (rot.rotate_qlm_Ds_right, TT, DS, lambda p, k: True), (rot.Dlmn, I3, I1, lambda p, k: -1, A, A, A), (rot.Dl, L3, A, A, A),
    (rot.rotate_H_recurs, I1, lambda p, k: abs(pick(E, k)) % 3.1),
    (trs.translate_qlm, T, V), (trs.translate_Qlmb, T, V), (trs.translate_q2Q, T, V), (trr.translate_qlm, T, V), (trr.translate_Qlmb, T, V), (trr.translate_q2Q, T, V),
    (trr.transl_newt_z_RR, L5, R), (trr.transl_newt_z_SS, L5, R), (trr.transl_newt_z_SR, L5, R), (trr.transl_yuk_z_SR_recurs, L3, R, R), (trr.transl_yuk_z_RR_recurs, L3, R, R),
    (trr.apply_trans_mat, TT, TM), (trr.apply_trans_mat, TT, TM, lambda p, k: True), (trr.apply_trans_mat_right, TT, TM), (trr.apply_trans_mat_right, TT, TM, lambda p, k: True),
    (mpl.force_basis, I1, R, R, R), (mpl.multipole_force, None, T, T, A, A, R), (mpl.multipole_force_m, None, T, T, A, A, R), (mpl.torque_lm, T, T),
    (mpl.torque, T, T, 'e', V, lambda p, k: pick(['inner-inner', 'inner-outer', 'outer-outer'], k)), (mpl.embed_qlm, T, L5),
    (mpl.torques_at_angle, lambda p, k: pick(p.tc, k), lambda p, k: pick(p.tc, k), lambda p, k: pick(p.ang, k)),
    (cg.cgCoeff, I3, I1, lambda p, k: 1, lambda p, k: 0, I3, lambda p, k: 1), (cg.cgCoeff2, I3, I1, lambda p, k: 1, lambda p, k: 0, I3, lambda p, k: 1),
]
NUMERIC = (qn, bqn)


def args_of(op, ks, pool):
    fn, makers = op[0], op[1:]
    if TT in makers:
        t = pick(pool.tab, ks[0])
        L = len(t)-1
        k = ks[1]
        lst = (pool.Ds if makers[1] is DS else pool.T)[L-1]
        rest = [m(pool, q) for m, q in zip(makers[2:], ks[2:])]
        return [t, lst]+rest
    if fn in (mpl.multipole_force, mpl.multipole_force_m):
        t, u = pick(pool.tab, ks[1]), pick(pool.tab, ks[2])
        if t.shape != u.shape:
            u = t
        return [len(t)-1, t, u]+[m(pool, q) for m, q in zip(makers[3:], ks[3:])]
    if fn is mpl.torque_lm:
        t, u = pick(pool.tab, ks[0]), pick(pool.tab, ks[1])
        return [t, u if t.shape == u.shape else t]
    if fn is mpl.torque:
        t, u = pick(pool.tab, ks[0]), pick(pool.tab, ks[1])
        if t.shape != u.shape:
            u = t
        return [t, u, (A(pool, ks[2]), A(pool, ks[3]), A(pool, ks[4])), V(pool, ks[5]), makers[4](pool, ks[6])]
    if fn is glb.translate_point_array and makers[1] is not V:
        return [P(pool, ks[0]), np.zeros(3)]
    if fn is mpl.torques_at_angle:
        t = pick(pool.tc, ks[0])
        return [t, t, pick(pool.ang, ks[1])]
    if fn in (cg.cgCoeff, cg.cgCoeff2):
        j1, j2 = 1+ks[0] % 3, 1+ks[1] % 3
        return [j1, j2, 1, 0, max(1, abs(j1-j2)), 1]
    return [m(pool, q) for m, q in zip(makers, ks)]


def flat(r):
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in flat(y)]
    return [r]


def keep(r):
    return [np.array(x, copy=True) for x in flat(r)]


def scribble(r):
    for x in flat(r):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
            x[...] = 7 if x.dtype.kind in 'iu' else (True if x.dtype.kind == 'b' else np.nan)
    if isinstance(r, list):
        r.clear()


def compute(fn, args, call):
    with (numkit.fast(6) if any(fn.__module__ == m.__name__ for m in NUMERIC) else contextlib.redirect_stdout(io.StringIO())):
        if fn.__module__ in (gs.__name__, gl.__name__):
            try:        # too coarse a grid for the solid may be refused, but then always
                return fn(*args)
            except Exception as e:
                return [np.array([len(type(e).__name__)])]
        return call(fn, *args)


def run(op, ks, pool, ctx):
    args = args_of(op, ks, pool)
    return compute(op[0], args, ctx.call), args


SOCK = None


def serve(listener):
    """A process which never calls the toolkit itself: every request is computed in a child of its own."""
    import ctypes, os, pickle, signal, struct
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    dn = os.open(os.devnull, os.O_RDWR)
    for fd_ in (0, 1, 2):
        os.dup2(dn, fd_)
    while True:
        conn, _ = listener.accept()
        if os.fork():
            conn.close()
            continue
        signal.alarm(120)
        try:
            with conn.makefile('rb') as f:
                i, args = pickle.loads(f.read(struct.unpack('q', f.read(8))[0]))
            with np.errstate(all='ignore'):
                out = keep(compute(OPS[i][0], args, lambda fn, *a: fn(*a)))
            data = pickle.dumps(('ok', out))
        except BaseException as e:
            data = pickle.dumps(('raised', repr(e)))
        conn.sendall(data)
        conn.close()
        os._exit(0)


def start_server():
    import os, socket
    global SOCK
    SOCK = '\0newt-p35-%d' % os.getpid()
    l = socket.socket(socket.AF_UNIX)
    l.bind(SOCK)
    l.listen(64)
    if os.fork() == 0:
        serve(l)
    l.close()


check.pre = start_server


def fresh_result(i, args):
    import pickle, socket, struct
    c = socket.socket(socket.AF_UNIX)
    try:
        c.settimeout(180)
        c.connect(SOCK)
        data = pickle.dumps((i, args))
        c.sendall(struct.pack('q', len(data))+data)
        got = b''
        while True:
            b = c.recv(1 << 20)
            if not b:
                break
            got += b
    finally:
        c.close()
    if not got:
        raise HarnessError('no answer from the fresh process')
    return pickle.loads(got)


call = st.tuples(st.integers(0, len(OPS)-1), st.lists(st.integers(0, 9), min_size=8, max_size=8)).map(list)


@check.clause(st.fixed_dictionaries(dict(calls=st.lists(call, min_size=2, max_size=10), seed=st.integers(0, 50), frozen=st.booleans(),
                                         order=st.integers(0, 10**6))), quick=4000, thorough=60000, shards=8)
def histories(c, ctx):
    pool = Pool(c['seed'], c['frozen'])
    start = pool.snap()
    calls = [(OPS[i], tuple(ks)) for i, ks in c['calls']]
    used = []

    def name(op):
        return f'{op[0].__module__}.{op[0].__name__}'

    def intact(what):
        a, n = start
        b, m = pool.snap()
        ctx.check(n == m, lambda: f'{what} changed the length of a matrix list')
        for x, y in zip(a, b):
            ctx.check(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), lambda: f'{what} changed an argument or another array: {x.tolist()} became {y.tolist()}')
    first = []
    for op, ks in calls:
        r, args = run(op, ks, pool, ctx)
        used += [id(a) for a in args if isinstance(a, np.ndarray)]
        intact(name(op))
        first.append(keep(r))
        for x in flat(r):
            if isinstance(x, np.ndarray):
                for a in pool.all():
                    ctx.check(not np.shares_memory(x, a), lambda: f'{name(op)} returned a view of its argument')
        scribble(r)
        intact(f'overwriting the result of {name(op)}')
    ctx.nt(len(used) > len(set(used)))
    ctx.label('write-protected inputs' if c['frozen'] else 'writable inputs')
    g = np.random.default_rng(c['order'])
    for i in g.permutation(len(calls)):
        op, ks = calls[i]
        r, _ = run(op, ks, pool, ctx)
        again = keep(r)
        ctx.check(len(again) == len(first[i]), lambda: f'{name(op)} returned {len(again)} arrays, then {len(first[i])}')
        for x, y in zip(first[i], again):
            ctx.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-300, equal_nan=True),
                      lambda: f'{name(op)}{tuple(ks)}: a repeated call returned {y.tolist()}, before {x.tolist()}')
        scribble(r)
    intact('the history')


@check.clause(st.tuples(st.integers(0, len(OPS)-1), st.lists(st.integers(0, 9), min_size=8, max_size=8)).map(list), quick=1500, thorough=20000, shards=8)
def each(c, ctx):
    """Every routine, twice in a row with the result overwritten in between."""
    pool = Pool(3, True)
    op, ks = OPS[c[0]], c[1]
    ctx.nt(True)
    ctx.label(f'{op[0].__module__.split(".")[-1]}')
    r, _ = run(op, ks, pool, ctx)
    a = keep(r)
    scribble(r)
    b = keep(run(op, ks, pool, ctx)[0])
    for x, y in zip(a, b):
        ctx.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-300, equal_nan=True), lambda: f'{op[0].__name__}{tuple(ks)}: a repeated call returned {y.tolist()}, before {x.tolist()}')


@st.composite
def streaks(draw):
    """Histories with streaks of one routine on neighbouring arguments, and arguments edited in place between calls."""
    out = []
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, len(OPS)-1))
        ks = draw(st.lists(st.integers(0, 9), min_size=8, max_size=8))
        for _ in range(draw(st.integers(1, 4))):
            out.append([i, list(ks), draw(st.integers(0, 3)) == 0])
            for _ in range(draw(st.integers(0, 2))):
                ks[draw(st.integers(0, 7))] = draw(st.integers(0, 9))
    return out


@check.clause(st.fixed_dictionaries(dict(calls=streaks(), seed=st.integers(0, 50))), quick=1600, thorough=30000, shards=8)
def fresh(c, ctx):
    """Every call returns what the same call returns in a process that made no other call."""
    pool = Pool(c['seed'], False)
    done = []
    for i, ks, edit in c['calls']:
        op = OPS[i]
        if edit and done:
            for a in pool.all():
                a *= 1.25
                a.flat[0] += 0.25
        args = args_of(op, ks, pool)
        import copy
        sent = copy.deepcopy(args)
        r, _ = run(op, ks, pool, ctx)
        done.append((i, sent, keep(r)))
        scribble(r)
    ctx.nt(len(c['calls']) > 1 and len({i for i, _, _ in c['calls']}) < len(c['calls']))
    ctx.label('edited in place' if any(e for _, _, e in c['calls']) else 'as given')
    for k, (i, args, got) in enumerate(done):
        if k < len(done)-3 and k % 3:
            continue
        kind, want = fresh_result(i, args)
        name = f'{OPS[i][0].__module__}.{OPS[i][0].__name__}'
        ctx.check(kind == 'ok' and len(want) == len(got), lambda: f'{name}: in a fresh process {kind} {want if kind != "ok" else ""}')
        for x, y in zip(got, want):
            ctx.check(x.shape == y.shape, lambda: f'{name}: shape {x.shape} after other calls, {y.shape} in a fresh process')
            with np.errstate(all='ignore'):
                big = np.nanmax(np.abs(y)) if y.size else 0
            ctx.check(np.allclose(x, y, rtol=1e-11, atol=1e-12*(big if np.isfinite(big) else 1), equal_nan=True),
                      lambda: f'{name} call {k+1} of the history: {x.tolist()}, in a fresh process {y.tolist()}')

from solidkit import *
import numkit
from p27 import folder, write
import newt.read_multiFor as rmf

check = Check('P28', 'Random scripts of 1-14 statements over create (all 11 shapes), rotate, translate, add, load, gettotal, puttotal, '
              'zeroqlm, cmin/inchin, nsteps, comments, blank lines, indentation, trailing text after end; degree 0-7 (0-5 with plate holes).  '
              'Oracle: an independent interpreter of the same statements over quadrature points of the solids (density in g/cc, lengths '
              'in the current unit).  Non-trivial: a total with at least two different operations on a body of non-zero mass, degree >= 2.',
              assumptions=['scripts with a cylinder hole run with a fast Gauss rule in place of scipy.integrate.tplquad'])
fd = st.fixed_dictionaries
sz = gen.pos(0.3, 4.0)
vec0 = st.one_of(st.just([0.0, 0.0, 0.0]), gen.vec(3.0))


@st.composite
def dims(draw, shape):
    z = lambda: draw(sz)
    if shape == 'cylinder':
        ro = z()
        ri = ro*draw(gen.pick((3, st.just(0.0)), (4, gen.fl(0.05, 0.9)), (1, st.sampled_from([1e-6, 1e-3, 0.02, 0.99, 0.9999]))))
        a = draw(st.one_of(gen.fl(-180, 180), st.sampled_from([0.0, -180.0, 90.0])))
        w = draw(gen.pick((3, gen.fl(5, 360)), (3, st.sampled_from([360.0, 180.0, 90.0])), (1, st.sampled_from([1e-3, 0.1, 1.0, 359.0, 359.9, 359.999]))))
        b = a+w
        while (b-a)*math.pi/180/2 > math.pi:    # a full turn, not a rounding error more
            b = math.nextafter(b, -math.inf)
        return [ri, ro, z(), a, b]
    if shape == 'sphere':
        return [z()]
    if shape == 'cone':
        r = z()
        f = draw(gen.pick((2, st.just(0.0)), (1, st.just(1.0)), (2, gen.fl(0.1, 0.8)), (1, gen.fl(0.8, 0.95)), (1, st.sampled_from([1e-3, 0.01, 0.03, 0.06]))))
        d = [r, r*f]
        if draw(st.integers(0, 3)) == 0:
            d = d[::-1]
        return d+[z()]
    if shape == 'triangle':
        y, d = draw(gen.fl(-3, 2)), draw(gen.fl(0.3, 3))
        y = draw(gen.pick((7, st.just(y)), (1, st.just(-d/2)), (1, st.just(0.0)), (1, st.just(-d))))
        return [z(), y, y+d, z()]
    if shape == 'trapezoid':
        w = z()
        d = [w, w*draw(gen.pick((2, st.just(1.0)), (3, gen.fl(0.05, 0.8)), (1, gen.fl(0.8, 0.95)), (1, st.sampled_from([0.0, 1e-3, 0.01, 0.03]))))]
        if draw(st.booleans()):
            d = d[::-1]
        return d+[z(), z()]
    if shape == 'partcylinder':
        r = z()
        return [r, r*draw(gen.pick((6, gen.fl(0.05, 0.9)), (1, gen.fl(0.9, 0.99)), (1, st.sampled_from([1e-6, 1e-3, 0.01])))), z()]
    if shape == 'platehole':
        return [z(), z(), draw(gen.pick((4, gen.fl(-75, 75)), (3, st.sampled_from([0.0, 30.0, 45.0])), (1, st.sampled_from([85.0, -85.0, 0.01, -0.01, 1.0]))))]
    if shape == 'cylhole':
        R = z()
        return [R*draw(gen.fl(0.2, 0.95)), R]
    return [z(), z(), z()]


SHAPES = ['cylinder', 'sphere', 'cone', 'triangle', 'trapezoid', 'partcylinder', 'tetrahedron', 'pyramid', 'rectangle', 'platehole']
FILES = ['part', 'paddle', 'endcap', 'bladder', 'inchinloader', 'translated', 'mass2', 'part.v2', 'ring 3', 'add.end', 'EndCap', 'P1 Left']


@st.composite
def script(draw, shapes=tuple(SHAPES)):
    steps = []
    have = False
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, 19))
        if not have or k < 5:
            if draw(st.integers(0, 7)) == 0:
                steps.append(['load', draw(st.integers(0, len(FILES)-1)), draw(st.booleans()), draw(st.integers(0, 10**6))])
            else:
                s = draw(st.sampled_from(shapes))
                steps.append(['create', s, draw(dims(s)), draw(st.one_of(gen.pos(0.1, 9), gen.pos(0.1, 9), gen.pos(0.1, 9).map(lambda v: -v))), draw(vec0)])
            have = True
            if draw(st.integers(0, 2)) == 0:
                steps.append(['add'])
        elif k < 10:
            steps.append(['add'])
        elif k < 13:
            steps.append(['rotate', [draw(st.one_of(gen.fl(-360, 360), st.sampled_from([0.0, 90.0, -90.0, 180.0]))) for _ in range(3)]])
        elif k < 15:
            steps.append(['translate', draw(vec0)])
        elif k == 15:
            steps.append([draw(st.sampled_from(['cmin', 'inchin']))])
        elif k == 16:
            steps.append(['gettotal'])
        elif k == 17:
            steps.append(['puttotal'])
        elif k == 18:
            steps.append(['zeroqlm'] if draw(st.booleans()) else ['gettotal'])
        else:
            steps.append(['comment', draw(st.sampled_from(['%', '% add', '%add', '  % end', '', '   ', '% create sphere red', 'nsteps 24', '%zeroqlm']))])
    if draw(st.booleans()):
        steps.append(['add'])
    return dict(steps=steps, tail=draw(st.integers(0, 5)), fmt=draw(st.integers(0, 11)))


def solid(s, d, L):
    """Quadrature nodes of a created part, lengths in metres; and the size of the bodies combined to make it."""
    if s == 'cylinder':
        ri, ro, H, a, b = d
        a, b = math.radians(a), math.radians(b)
        return S.annulus(-H/2, H/2, ri, ro, (a+b)/2, (b-a)/2, L), 0
    if s == 'sphere':
        return S.sphere(d[0], L), 0
    if s == 'cone':
        lr, ur, H = d
        big = H*max(lr, ur)/abs(lr-ur) if lr != ur else H
        return S.frustum(0.0, H, lr, ur, 0.0, math.pi, L), big
    if s == 'triangle':
        x, y1, y2, t = d
        return S.poly_prism([(0, 0), (x, y1), (x, y2)], -t/2, t/2, L), 0
    if s == 'trapezoid':
        w1, w2, h, t = d
        big = h*max(w1, w2)/abs(w1-w2)*2 if w1 != w2 else h
        return S.poly_prism(S.trapezoid_poly(w1, w2, h), -t/2, t/2, L), big+max(w1, w2)
    if s == 'partcylinder':
        return S.segment(d[2], d[0], d[1], L), 0
    if s == 'tetrahedron':
        x, y, z = d
        return S.tet([(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)], L), 0
    if s == 'pyramid':
        return S.pyramid(d[0]/2, d[1]/2, d[2], L), 0
    if s == 'rectangle':
        return S.poly_prism(S.rect(d[0], d[1]), -d[2]/2, d[2]/2, L), 0
    if s == 'platehole':
        r, t, th = d
        return S.platehole(t, r, math.radians(th), L), 0
    return S.cylhole(d[0], d[1], L, axis='y'), 0


def num(x, k):
    return repr(x) if k % 3 else (f'{x:.9f}' if abs(x*1e6-round(x*1e6)) < 1e-9 else repr(x))


def run_case(c, L, ctx, tol):
    sc = c['sc'] if 'sc' in c else c
    steps, k = sc['steps'], sc['fmt']
    ind = ['', '', '  ', ' '][k % 4]
    lines = ['a title % with create add end']
    fac = 1e-2
    work, total, wr, tr = np.zeros((0, 4)), np.zeros((0, 4)), 0.0, 0.0
    files = []
    ops = set()
    sep = ',' if k % 2 else ', '
    cm = ' % note: add end' if k % 5 == 0 else ''
    if sc['tail'] == 5:
        lines.append('inchin')
        fac = 25.4e-3
    elif sc['tail'] > 2:
        lines.append('nsteps 24')
        lines.append('cmin')
    ri = lambda n: float(np.sqrt((n[:, 1:]**2).sum(1)).max()) if len(n) else 0.0
    for q in steps:
        o = q[0]
        if o == 'create':
            _, s, d, dens, pos = q
            lines += [f'{ind}create {s} red{cm}', sep.join(num(v, k) for v in d), f'{num(dens, k)}', sep.join(num(v, k) for v in pos)]
            ang = {'cylinder': 3, 'platehole': 2}.get(s, len(d))
            dm = [v*fac for v in d[:ang]]+list(d[ang:])
            n, big = solid(s, dm, L)
            n = n.copy()
            n[:, 0] *= dens*1000
            wr = max(ri(n), big*1.0)
            n[:, 1:] += np.array(pos)*fac
            wr += float(np.linalg.norm(pos))*fac
            work = n
            ops.add(s)
        elif o == 'load':
            g = np.random.default_rng(q[3])
            work = np.column_stack([g.normal(size=3), g.uniform(-3, 3, (3, 3))*1e-2])
            name = FILES[q[1]]+str(q[3] % 7)
            t = ref.inner(L, work)
            rows = []
            for l in range(L+1):
                for m in range(l+1):
                    v = t[l, L+m]/(1e-3*0.01**l)
                    rows.append((float(v.real), float(v.imag)))
            if any(f[0] == name for f in files):
                name += f'x{len(files)}'
            files.append((name, rows))
            lines.append(f'{ind}load {name}{".gsq" if q[2] else ""}{cm}')
            wr = ri(work)
            ops.add('load')
        elif o == 'rotate':
            lines.append(f'{ind}rotate '+sep.join(num(v, k) for v in q[1])+cm)
            work = ref.move(work, ref.euler(*[math.radians(v) for v in q[1]])) if len(work) else work
            if any(q[1]):
                ops.add('rotate')
        elif o == 'translate':
            lines.append(f'{ind}translate '+sep.join(num(v, k) for v in q[1])+cm)
            work = ref.move(work, None, np.array(q[1])*fac) if len(work) else work
            wr += float(np.linalg.norm(q[1]))*fac
            if any(q[1]):
                ops.add('translate')
        elif o == 'add':
            lines.append(f'{ind}add{cm}')
            total = np.vstack([total, work])
            tr = max(tr, wr)
            ops.add('add')
        elif o == 'comment':
            lines.append(q[1])
        else:
            lines.append(f'{ind}{o}{cm}')
            if o == 'cmin':
                fac = 1e-2
            elif o == 'inchin':
                fac = 25.4e-3
            elif o == 'gettotal':
                work, wr = total.copy(), tr
            elif o == 'puttotal':
                total, tr = work.copy(), wr
            elif o == 'zeroqlm':
                total, tr = np.zeros((0, 4)), 0.0
            ops.add(o)
    if sc['tail'] > 0:
        lines.append(ind+'end'+cm)
        if sc['tail'] % 2:
            lines += ['add', 'rotate 10,20,30', 'zeroqlm', 'create nonsense']
    text = '\n'.join(lines)+('\n' if k % 7 else '')
    if len(total) > 40000:
        return
    with folder('mom', 'mpc') as d:
        for name, rows in files:
            write(f'{d}/mom/{name}.gsq', 'saved', L, rows)
        script = ('run', 'run', 'run.v2', 'my run', 'end', 'a.gsq')[(k//2) % 6]
        with open(f'{d}/mpc/{script}.mpc', 'w') as f:
            f.write(text)
        got = ctx.call(rmf.read_mpc, L, script+('' if k % 2 else '.mpc'), d+'/mpc/')
    got = np.asarray(got)
    what = 'script:\n'+text+'\n'
    ctx.check(got.shape == (L+1, 2*L+1), lambda: f'{what}shape {got.shape}')
    want = ref.inner(L, total) if len(total) else np.zeros((L+1, 2*L+1), complex)
    M = max([1e-12]+[np.abs(total[:, 0]).sum() if len(total) else 0])
    R = max(tr, wr, 1e-9)
    cond, dth = 1.0, 0.0
    for q in steps:
        if q[0] in ('create', 'translate') and any(q[-1]):
            dth += pole_err(q[-1])[0]
        elif q[0] == 'rotate':
            dth += tilt_err(math.radians(q[1][1]))
        if q[0] == 'create' and q[1] in ('cone', 'trapezoid'):
            dth += pole_err([0.0, 0.0, 1.0])[0]     # put together from parts moved along an axis
        if q[0] == 'create' and q[1] in ('cone', 'trapezoid') and q[2][0] != q[2][1]:
            cond = max(cond, (1/abs(1-min(q[2][:2])/max(q[2][:2])))**3)
        if q[0] == 'create' and q[1] == 'partcylinder':
            cond = max(cond, (1-q[2][1]/q[2][0])**-1.5)
    t = np.array([[M*R**l*2.5**l*(cond*tol+(l+1)**2*dth)+1e-290]*(2*L+1) for l in range(L+1)])
    ctx.nt(L >= 2 and len(ops) >= 3 and np.abs(want).max() > 0)
    ctx.label(*[o for o in ops])
    ctx.close(got, want, t, what)


def has(sc, s):
    return any(q[0] == 'create' and q[1] == s for q in sc['steps'])


@check.clause(fd(dict(sc=script(), L=st.integers(0, 7))), quick=3000, thorough=60000, shards=8)
def scripts(c, ctx):
    L = min(c['L'], 5) if has(c['sc'], 'platehole') else c['L']
    run_case(c, L, ctx, 1e-11)


@check.clause(fd(dict(sc=script(('cylhole', 'cylhole', 'sphere', 'rectangle')), L=st.integers(0, 3))), quick=160, thorough=4000, shards=8)
def hole_scripts(c, ctx):
    with numkit.fast(24, 1):
        run_case(c, c['L'], ctx, 1e-6)


@check.clause(fd(dict(L=st.integers(0, 6), K=st.integers(0, 6))), quick=80, thorough=400)
def load_degree(c, ctx):
    """A stored part of another degree must be refused, of the same degree accepted."""
    L, K = c['L'], c['K']
    rows = [(float(i+1), 0.0) for i in range((K+1)*(K+2)//2)]
    ctx.nt(L != K)
    with folder('mom', 'mpc') as d:
        write(f'{d}/mom/part.gsq', 'saved', K, rows)
        with open(f'{d}/mpc/run.mpc', 'w') as f:
            f.write('title\nload part\nadd\nend\n')
        try:
            got = rmf.read_mpc(L, 'run', d+'/mpc/')
        except TypeError:
            got = None
    if L != K:
        ctx.check(got is None, lambda: f'a stored part of degree {K} was loaded into a script of degree {L} without an error')
    else:
        ctx.check(got is not None and np.shape(got) == (L+1, 2*L+1), lambda: f'a stored part of degree {L} was refused')

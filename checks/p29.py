from cadkit import *
import contextlib, copy, io, os, re, shutil
import numkit
import newt.shapes as shp

check = Check('P29', 'All 11 shape classes (inner) and the three with outer moments, degree 0-4, positive and negative mass; histories '
              'of 0-5 operations: translate, Euler rotate, add (one or a list, mixed maximum degrees, parts with histories of their own), inner to '
              'outer translation, forbidden operations.  Model: quadrature nodes of the documented solid moved rigidly; truncated fields '
              'once outer.  After each operation moments, mass, centre of mass and mesh are compared.  Non-trivial: degree >= 1 and '
              'at least one operation.')
vec = gen.vec(3.0, gen.COARSE)
Lm = st.sampled_from([0, 1, 2, 2, 3, 3, 4])
pmass = gen.pos(0.2, 5.0)
amass = st.one_of(pmass, pmass, pmass.map(lambda m: -m))
INNER = ['annulus', 'rect_prism', 'tri_prism', 'cone', 'sphere', 'ngon_prism', 'tetrahedron2', 'pyramid', 'annulus', 'sphere']
NUM = ['cylhole', 'platehole']
CLS = dict(annulus=shp.Annulus, rect_prism=shp.RectPrism, tri_prism=shp.TriPrism, cone=shp.Cone, sphere=shp.Sphere,
           ngon_prism=shp.NGon, tetrahedron2=shp.Tetrahedron, pyramid=shp.Pyramid, cylhole=shp.Cylhole, platehole=shp.Platehole)


def inner_of(names):
    def one(s):
        d = dict(s=st.just(s), c=SOLIDS[s], L=Lm if s not in NUM else st.sampled_from([0, 1, 2]), m=amass)
        if s == 'sphere':
            d['p'] = vec
        return fd(d)
    return st.sampled_from(names).flatmap(one)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def build(c, ctx):
    """(shape, nodes with the mass of the body, description)"""
    s, L, m = c['s'], c['L'], c['m']
    k = dict(c['c'], f=0.0) if s == 'cone' else c['c']
    args, n = model(s, k, max(L, 2))
    if s == 'cone':
        args = (args[0],)+args[2:]
    if s == 'sphere':
        args = args+(list(c['p']),)
        n = ref.move(n, None, c['p'])
    n = n.copy()
    n[:, 0] *= m/n[:, 0].sum()
    what = f'{CLS[s].__name__}(lmax={L}, mass={m}, {args})'
    with (numkit.fast() if s in NUM else quiet()):
        sh = ctx.call(CLS[s], *([1] if s == 'platehole' else []), L, True, m, *args)
    return sh, n, what, 1e-5 if s in NUM else 1e-9+(polar(c['p']) if s == 'sphere' else 0.0)


def state(sh):
    return sh.qlm.copy(), np.array(sh.com, float), sh.mass, body(sh.mesh)[:2], sh.lmax, sh.inner


def same(ctx, a, b, what):
    ctx.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and a[2] == b[2] and a[4:] == b[4:], lambda: f'{what} changed another shape: {a} -> {b}')
    ctx.check(abs(a[3][0]-b[3][0]) < 1e-9 and np.abs(a[3][1]-b[3][1]).max() < 1e-9, lambda: f'{what} changed the mesh of another shape')


def embed(q, L):
    o = np.zeros((L+1, 2*L+1), complex)
    l = len(q)-1
    o[:l+1, L-l:L+l+1] = q
    return o


motion = st.one_of(st.tuples(st.just('t'), vec).map(list), st.tuples(st.just('t'), vec).map(list), st.tuples(st.just('r'), st.tuples(ang, ang, ang).map(list)).map(list))


def apply(sh, k, a, ctx):
    with quiet():
        if k == 't':
            ctx.call(sh.translate, np.array(a) if len(str(a[0])) % 2 else list(a), True)
        else:
            ctx.call(sh.rotate, *a)


def step(n, k, a):
    return ref.move(n, None, a) if k == 't' else ref.move(n, ref.euler(*a))


def reach(n):
    return np.sqrt((n[:, 1:]**2).sum(1)).max()


# the centre of a cylhole or platehole comes from the CAD kernel's default quadrature (about 1e-4)
def polar(*vs):
    """Moving along an axis may keep half the digits only (an angle from arccos(z/r))."""
    return 1e-7 if any(pole_err(v)[0] > 1e-13 for v in vs) else 0.0


def moves(ops):
    return [a for o, a in ops if o == 't']


def compare_shape(ctx, sh, q, n, hist, rel, what, mesh=True):
    L = len(q)-1
    ctx.check(sh.qlm.shape == q.shape, lambda: f'{what}: table of shape {sh.qlm.shape}, expected {q.shape}')
    M = sum(abs(x) for x in hist['abs'])
    sc = M*np.array([max(hist['reach'], 1e-9)**l*(1+l)**2 for l in range(L+1)])
    ctx.close(sh.qlm, q, np.repeat(rel*sc[:, None], 2*L+1, 1)+1e-300, f'{what}: moments')
    mt = n[:, 0].sum()
    ctx.check(abs(sh.mass-mt) <= 1e-11*M, lambda: f'{what}: mass {sh.mass}, expected {mt}')
    ctx.close(np.asarray(sh.com, float), n[:, 0] @ n[:, 1:]/mt, (2e-3 if rel > 1e-6 else 1e-6)*(1+hist['reach'])*M/abs(mt), f'{what}: centre of mass')
    if mesh:
        V, cen = body(sh.mesh)[:2]
        ctx.check(abs(V-hist['vol']) <= 1e-5*hist['vol'], lambda: f'{what}: mesh volume {V}, expected {hist["vol"]}')
        ctx.close(cen, hist['cen'](), 1e-5*(1+hist['reach']), f'{what}: mesh centre')


@check.clause(fd(dict(c=inner_of(INNER+NUM), ops=st.lists(motion, max_size=3))), quick=1000, thorough=15000, shards=8)
def single(k, ctx):
    """One body under motions."""
    sh, n, what, rel = build(k['c'], ctx)
    L = k['c']['L']
    ctx.nt(L >= 1 and len(k['ops']) > 0)
    ctx.label(k['c']['s'], f'{len(k["ops"])} motions', 'negative mass' if k['c']['m'] < 0 else 'positive mass')
    ctx.check(sh.lmax == L and sh.inner is True, lambda: f'{what}: lmax {sh.lmax}, inner {sh.inner}')
    h = dict(abs=[k['c']['m']], reach=reach(n), vol=body(sh.mesh)[0])
    want = model_volume(k['c'])
    ctx.check(abs(h['vol']-want) <= 1e-5*want, lambda: f'{what}: mesh volume {h["vol"]}, expected {want}')
    h['cen'] = lambda: n[:, 0] @ n[:, 1:]/n[:, 0].sum()
    compare_shape(ctx, sh, ref.inner(L, n), n, h, rel, what)
    for i, (o, a) in enumerate(k['ops']):
        apply(sh, o, a, ctx)
        n = step(n, o, a)
        h['reach'] = max(h['reach'], reach(n))
        rel += polar(*moves([[o, a]]))
        compare_shape(ctx, sh, ref.inner(L, n), n, h, rel, f'{what} after {k["ops"][:i+1]}')


def model_volume(c):
    k = dict(c['c'], f=0.0) if c['s'] == 'cone' else c['c']
    return model(c['s'], k, 2)[1][:, 0].sum()


@check.clause(fd(dict(cs=st.lists(fd(dict(c=inner_of(INNER), pre=st.lists(motion, max_size=1))), min_size=2, max_size=4), same=st.booleans(),
                      aslist=st.booleans(), post=st.lists(motion, max_size=2), m0=pmass)), quick=400, thorough=8000, shards=8)
def sums(k, ctx):
    """Several bodies, far apart, added up (singly or as a list), then moved together."""
    shapes, nodes, Ls, rels, vols = [], [], [], [], []
    for i, e in enumerate(k['cs']):
        c = dict(e['c'])
        if k['same'] or k['post']:
            c['L'] = k['cs'][0]['c']['L']   # moving a sum is exact only when its parts have the same degree
        if i == 0:
            c['m'] = k['m0']
        sh, n, what, rel = build(c, ctx)
        for o, a in e['pre']:
            apply(sh, o, a, ctx)
            n = step(n, o, a)
            rel += polar(*moves([[o, a]]))
        if i:   # clear of the previous body: the nodes lie inside, at least half way out
            size = sum(2*np.sqrt(((b[:, 1:]-b[:, 1:].mean(0))**2).sum(1).max()) for b in (n, nodes[-1]))
            x0 = nodes[-1][:, 1:].mean(0)-n[:, 1:].mean(0)
            d = [float(x0[0]+max(14.0, size)), 2.0*i, -3.0*i]
            apply(sh, 't', d, ctx)
            n = step(n, 't', d)
        shapes.append(sh)
        nodes.append(n)
        Ls.append(c['L'])
        rels.append(rel)
        vols.append((c['m'], model_volume(c)))
    rel = max(rels)
    ms = [n[:, 0].sum() for n in nodes]
    part = sum(map(abs, ms))*0.05
    if any(abs(sum(ms[:i+1])) < part for i in range(len(ms))):
        return      # no centre of mass for a body without mass, not even on the way
    before = [state(s) for s in shapes]
    what = f'sum of {[type(s).__name__ for s in shapes]} of degrees {Ls}, masses {ms}'
    tot = shapes[0]
    with quiet():
        if k['aslist']:
            lst = shapes[1:]
            ctx.call(tot.add, lst)
            ctx.check(len(lst) == len(shapes)-1, 'add changed the list')
        else:
            for s in shapes[1:]:
                ctx.call(tot.add, s)
    L = max(Ls)
    ctx.nt(L >= 1)
    ctx.label('list' if k['aslist'] else 'one by one', 'mixed degrees' if len(set(Ls)) > 1 else 'one degree', 'with a hole' if min(ms) < 0 else 'solid')
    ctx.check(tot.lmax == L, lambda: f'{what}: lmax {tot.lmax}')
    n = np.vstack(nodes)
    h = dict(abs=ms, reach=reach(n))
    pos = [i for i, m in enumerate(ms) if m > 0]    # far holes cut nothing
    h['vol'] = sum(vols[i][1] for i in pos)

    def cen():
        return sum(vols[i][1]*(nodes[i][:, 0] @ nodes[i][:, 1:])/ms[i] for i in pos)/h['vol']
    h['cen'] = cen
    q = sum(embed(ref.inner(l, m), L) for l, m in zip(Ls, nodes))
    compare_shape(ctx, tot, q, n, h, rel, what)
    for b, s in zip(before[1:], shapes[1:]):
        same(ctx, b, state(s), f'{what}: add')
    for o, a in k['post']:
        apply(tot, o, a, ctx)
        nodes[:] = [step(m, o, a) for m in nodes]
        n = np.vstack(nodes)
        h['reach'] = max(h['reach'], reach(n))
        compare_shape(ctx, tot, ref.inner(L, n), n, h, rel+polar(*moves(k['post'])), f'{what} moved by {k["post"]}')
    for b, s in zip(before[1:], shapes[1:]):
        same(ctx, b, state(s), f'{what}: moving the sum')
    if k['post']:
        now = state(tot)
        s = shapes[-1]
        apply(s, 't', [1.0, 2.0, 3.0], ctx)
        same(ctx, now, state(tot), 'moving an added shape')


@check.clause(fd(dict(a=sz, b=sz, H=sz, f=gen.fl(0.1, 0.8), g=gen.fl(0.1, 0.8), m=pmass, L=Lm, d=vec, rot=st.tuples(ang, ang, ang).map(list),
                      p=vec)), quick=150, thorough=2500, shards=8)
def hole(k, ctx):
    """A brick with a round hole: a negative mass added to a positive one."""
    L, a, b, H = k['L'], k['a'], k['b'], k['H']
    dens = k['m']/(a*b*H)
    R = min(a, b)/2*k['f']
    hh = H*k['g']
    mh = -dens*math.pi*R*R*hh
    ctx.nt(L >= 1)
    with quiet():
        brick = ctx.call(shp.RectPrism, L, True, k['m'], H, a, b, 0.0)
        cyl = ctx.call(shp.Annulus, L, True, mh, hh, 0.0, R, 0.0, PI)
        brick.translate(k['p'], True)
        cyl.translate(k['p'], True)
        ctx.call(brick.add, cyl)
        brick.rotate(*k['rot'])
        brick.translate(k['d'], True)
    n = S.poly_prism(S.rect(a, b), -H/2, H/2, max(L, 2))
    n[:, 0] *= dens
    m = S.annulus(-hh/2, hh/2, 0.0, R, 0.0, PI, max(L, 2))
    m[:, 0] *= -dens
    n = np.vstack([n, m])
    n = ref.move(n, None, k['p'])
    r0 = reach(n)
    n = ref.move(ref.move(n, ref.euler(*k['rot'])), None, k['d'])
    h = dict(abs=[k['m'], mh], reach=max(r0, reach(n)), vol=n[:, 0].sum()/dens, cen=lambda: n[:, 0] @ n[:, 1:]/n[:, 0].sum())
    compare_shape(ctx, brick, ref.inner(L, n), n, h, 1e-9+polar(k['p'], k['d']), f'brick {a} x {b} x {H} with a hole {R}, {hh}')


# ------------------------------------------------------------------ outer
def outer_table(L, field, rho):
    return project_outer(L, field, rho, 40)[0]


@check.clause(fd(dict(c=inner_of(INNER), ops=st.lists(motion, max_size=1), u=gen.direction(gen.COARSE), f=gen.fl(1.3, 4.0), more=st.lists(motion, max_size=2),
                      twin=st.booleans())), quick=320, thorough=6000, shards=8)
def to_outer(k, ctx):
    """Inner to outer translation, then outer motions: the truncated field is moved exactly."""
    sh, n, what, rel = build(k['c'], ctx)
    L = k['c']['L']
    ctx.nt(L >= 1)
    ctx.label(k['c']['s'], f'{len(k["more"])} outer motions')
    for o, a in k['ops']:
        apply(sh, o, a, ctx)
        n = step(n, o, a)
        rel += polar(*moves([[o, a]]))
    r = reach(n)
    d = np.array(k['u'])/np.linalg.norm(k['u'])*r*k['f']
    q = ref.inner(L, n)
    with quiet():
        ctx.call(sh.translate, d, False)
    ctx.check(sh.inner is False, lambda: f'{what}: still inner after translation to outer moments')
    rho = np.linalg.norm(d)/4
    Q = outer_table(L, lambda x: ref.inner_field(q, x-d), rho)
    n = ref.move(n, None, d)
    M = abs(k['c']['m'])
    D = np.linalg.norm(d)
    sc = M*np.array([(r/D+1)**L*math.comb(2*L, L)/D**(l+1)*(1+L)**2 for l in range(L+1)])

    def comp(w):
        ctx.check(sh.qlm.shape == Q.shape, lambda: f'{w}: table of shape {sh.qlm.shape}')
        # a direction close to the pole loses digits in its polar angle
        tol = np.repeat(sc[:, None]*(rel+1e-7*(nearpole)), 2*L+1, 1)+1e-300
        ctx.close(sh.qlm, Q, tol, f'{w}: outer moments')
        ctx.check(abs(sh.mass-n[:, 0].sum()) <= 1e-11*M, lambda: f'{w}: mass {sh.mass}')
        ctx.close(np.asarray(sh.com, float), n[:, 0] @ n[:, 1:]/n[:, 0].sum(), 1e-6*(1+reach(n)), f'{w}: centre of mass')
        ctx.close(body(sh.mesh)[1], n[:, 0] @ n[:, 1:]/n[:, 0].sum(), 1e-5*(1+reach(n)), f'{w}: mesh centre')
    nearpole = pole_err(d)[0] > 1e-13
    comp(f'{what} moved out by {d.tolist()}')
    for i, (o, a) in enumerate(k['more']):
        if o == 't':
            a = [0.15*rho*x for x in a]
            with quiet():
                ctx.call(sh.translate, a, False)
            nearpole = nearpole or pole_err(a)[0] > 1e-13
            Qo = Q
            Q = outer_table(L, lambda x: ref.outer_field(Qo, x-np.array(a)), rho)
            sc = sc*2.0**L
        else:
            with quiet():
                ctx.call(sh.rotate, *a)
            Qo, R = Q, ref.euler(*a)
            Q = outer_table(L, lambda x: ref.outer_field(Qo, x @ R), rho)
        n = step(n, o, a)
        comp(f'{what} moved out by {d.tolist()} then {k["more"][:i+1]}')
    b = state(sh)
    try:
        with quiet():
            sh.translate([1.0, 0.0, 0.0], True)
    except ValueError:
        pass
    else:
        ctx.fail(f'{what}: a translation from outer to inner moments was accepted')
    if k['twin']:
        with quiet():
            other = shp.Sphere(L, True, 1.0, 0.5, [0.0, 0.0, 0.0])
        for args in ([other], other):
            try:
                with quiet():
                    sh.add(args)
            except TypeError:
                pass
            else:
                ctx.fail(f'{what}: inner and outer moments were added')
        for bad in (3.0, None, sh.qlm):
            try:
                other.add(bad)
            except TypeError:
                pass
            else:
                ctx.fail(f'a {type(bad).__name__} was added to a shape')
        ctx.check(np.array_equal(b[0], sh.qlm) and b[2] == sh.mass, f'{what}: a refused addition changed the shape')


OUT = st.one_of(
    fd(dict(s=st.just('annulus'), H=gen.fl(0.3, 3.0), ro=gen.fl(0.5, 3.0), f=gen.fl(0.2, 0.8), w=st.tuples(ang, half).map(list), L=Lm, m=amass)),
    fd(dict(s=st.just('sphere'), R=gen.fl(0.2, 2.0), u=gen.direction(gen.COARSE), f=gen.fl(1.2, 6.0), L=Lm, m=amass)),
    fd(dict(s=st.just('cone'), H=gen.fl(0.3, 3.0), ro=gen.fl(0.5, 3.0), f=gen.fl(0.2, 0.8), w=half, L=st.sampled_from([0, 1, 2]), m=amass)))


def build_outer(c, ctx):
    L, m, s = c['L'], c['m'], c['s']
    if s == 'sphere':
        p = np.array(c['u'])/np.linalg.norm(c['u'])*c['R']*c['f']
        a = (c['R'], p.tolist())
        n = np.array([[1.0, *p]])
        v = ref.move(S.sphere(c['R'], 2), None, p)
        cls, r0 = shp.Sphere, np.linalg.norm(p)
    else:
        ri = c['ro']*c['f']
        r0 = ri
        if s == 'annulus':
            a = (c['H'], ri, c['ro'], *c['w'])
            n = S.outer_annulus(-c['H']/2, c['H']/2, ri, c['ro'], *c['w'], L)
            v = S.annulus(-c['H']/2, c['H']/2, ri, c['ro'], *c['w'], 2)
            cls = shp.Annulus
        else:
            a = (c['H'], ri, c['ro'], c['w'])
            n = S.outer_cone_shell(c['H'], ri, c['ro'], 0.0, c['w'], L)
            v = S.cone_shell(c['H'], ri, c['ro'], 0.0, c['w'], 2)
            cls = shp.OuterCone
    n = n.copy()
    n[:, 0] *= m/n[:, 0].sum()
    what = f'{cls.__name__}(lmax={L}, outer, mass={m}, {a})'
    with (numkit.fast() if s == 'cone' else quiet()):
        sh = ctx.call(cls, L, False, m, *a)
    return sh, n, v, what, r0, 1e-6 if s == 'cone' else 1e-8


@check.clause(fd(dict(cs=st.lists(OUT, min_size=1, max_size=3), ops=st.lists(motion, max_size=2), m0=pmass)), quick=400, thorough=6000, shards=8)
def outer(k, ctx):
    """Shapes with outer moments of their own: built, moved, added."""
    shapes, tabs, vols, scs, rels, what = [], [], [], [], [], []
    for i, c in enumerate(k['cs']):
        if i == 0:
            c = dict(c, m=k['m0'])
        sh, n, v, w, r0, rel = build_outer(c, ctx)
        L = c['L']
        Q = ref.outer(L, n)
        sc = np.array([abs(c['m'])/r0**(l+1) for l in range(L+1)])*(1+(c['H'] if 'H' in c else 0)**0)
        tol = np.repeat(rel*sc[:, None], 2*L+1, 1)*(10/(1-c['f']) if c['s'] == 'annulus' else 1)
        if c['s'] == 'annulus':
            tol = tol*(1+(c['H']/2/c['ro'])**-6*1e-4)
        ctx.check(sh.qlm.shape == Q.shape and sh.inner is False and sh.lmax == L, lambda: f'{w}: attributes')
        ctx.close(sh.qlm, Q, tol+1e-300, f'{w}: outer moments')
        V, cen = body(sh.mesh)[:2]
        want = of_nodes(v)
        ctx.check(abs(V-want[0]) <= 1e-5*want[0], lambda: f'{w}: mesh volume {V}, expected {want[0]}')
        ctx.close(cen, want[1], 1e-5*(1+reach(v)), f'{w}: mesh centre')
        ctx.close(np.asarray(sh.com, float), want[1], 1e-5*(1+reach(v)), f'{w}: centre of mass')
        ctx.check(abs(sh.mass-c['m']) <= 1e-12*abs(c['m']), lambda: f'{w}: mass {sh.mass}')
        shapes.append(sh)
        tabs.append(Q)
        scs.append((r0, abs(c['m']), tol.max()))
        vols.append((c['m'], want[1]))
        what.append(w)
        ctx.label(c['s'], f'L{L}')
    ms = [v[0] for v in vols]
    L = max(len(q)-1 for q in tabs)
    ctx.nt(L >= 1)
    if abs(sum(ms)) < 0.05*sum(map(abs, ms)):
        return
    before = [state(s) for s in shapes]
    with quiet():
        if len(shapes) > 1:
            ctx.call(shapes[0].add, shapes[1:] if len(shapes) > 2 else shapes[1])
    tot = shapes[0]
    Q = sum(embed(q, L) for q in tabs)
    base = sum(t for _, _, t in scs)
    com = sum(m*c for m, c in vols)/sum(ms)
    cond = sum(map(abs, ms))/abs(sum(ms))
    ctx.close(tot.qlm, Q, np.full(Q.shape, base*2), f'sum of {what}: outer moments')
    ctx.check(abs(tot.mass-sum(ms)) <= 1e-11*sum(map(abs, ms)), lambda: f'sum of {what}: mass {tot.mass}, expected {sum(ms)}')
    for b, s in zip(before[1:], shapes[1:]):
        same(ctx, b, state(s), f'{what}: add')
    for i, (o, a) in enumerate(k['ops']):
        rmin = min(r for r, _, _ in scs)
        if o == 't':
            a = [0.1*rmin*x for x in a]
            with quiet():
                ctx.call(tot.translate, a, False)
            Qo = Q
            Q = outer_table(L, lambda x: ref.outer_field(Qo, x-np.array(a)), rmin/3)
            com = com+np.array(a)
        else:
            with quiet():
                ctx.call(tot.rotate, *a)
            Qo, R = Q, ref.euler(*a)
            Q = outer_table(L, lambda x: ref.outer_field(Qo, x @ R), rmin/3)
            com = R @ com
        base = base*2.0**(2*L)*10+1e-10*np.abs(Q).max()
        if o == 't' and pole_err(a)[0] > 1e-13:
            base += 1e-6*np.abs(Q).max()
        ctx.close(tot.qlm, Q, np.full(Q.shape, base), f'sum of {what} after {k["ops"][:i+1]}: outer moments')
        ctx.close(np.asarray(tot.com, float), com, 1e-5*cond*(10+np.abs(com).max()), f'sum of {what} after {k["ops"][:i+1]}: centre of mass')


@check.clause(fd(dict(c=inner_of(['annulus', 'sphere', 'rect_prism', 'pyramid']), ops=st.lists(motion, max_size=2), out=st.booleans(),
                      name=st.sampled_from(['part', 'part.v2', 'ring 3', 'P1.0']))), quick=100, thorough=1200, shards=4)
def saved(k, ctx):
    """save_shape writes the moments it holds next to the mesh."""
    sh, n, what, rel = build(k['c'], ctx)
    for o, a in k['ops']:
        apply(sh, o, a, ctx)
        n = step(n, o, a)
    if k['out']:
        with quiet():
            sh.translate(np.array([0.0, 3.0, 4.0])*reach(n), False)
    L = k['c']['L']
    ctx.nt(L >= 1)
    ctx.label('outer' if k['out'] else 'inner')
    d = f'/tmp/newtshape{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    b = state(sh)
    try:
        with quiet():
            ctx.call(sh.save_shape, f"{d}/{k['name']}")
        same(ctx, b, state(sh), 'save_shape')
        ctx.check(os.path.exists(f"{d}/{k['name']}.stl") and os.path.getsize(f"{d}/{k['name']}.stl") > 0, f'{what}: no STL file')
        text = open(f"{d}/{k['name']}.txt").read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    head = [x for x in text.splitlines() if x.startswith('#')]
    rows = [x.split() for x in text.splitlines() if not x.startswith('#')]
    q = np.array([[complex(v.replace('+-', '-')) for v in r] for r in rows])
    ctx.check(q.shape == sh.qlm.shape, lambda: f'{what}: saved table of shape {q.shape}')
    ctx.close(q, sh.qlm, 1e-15*np.abs(sh.qlm).max(), f'{what}: saved moments')
    hd = ' '.join(head)
    ctx.check(('Outer' in hd) == k['out'] and ('Inner' in hd) == (not k['out']), lambda: f'{what}: header {hd!r}')
    m = [x for x in head if x.startswith('# Mass:')]
    ctx.check(len(m) == 1 and abs(float(m[0].split('Mass:')[1])-sh.mass) <= 1e-12*abs(sh.mass), lambda: f'{what}: header {hd!r}')
    com = np.asarray(sh.com, float)
    ns = [float(x) for x in re.findall(r'[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?|[-+]?[0-9]+\.', hd.split('Center of Mass:')[1])] if hd.count('Center of Mass:') == 1 else []
    ctx.check(len(ns) == 3 and np.abs(np.array(ns)-com).max() <= 2e-8*max(1.0, np.abs(com).max()), lambda: f'{what}: header {hd!r}, centre of mass {com}')

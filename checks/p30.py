from cadkit import *
import contextlib, io, os, shutil

check = Check('P30', 'All 16 CAD constructors with unequal dimensions, wedges at every azimuth, followed by 0-3 translations and Euler '
              'rotations; sums of disjoint solids and cuts by enclosed ones; STL export.  Oracle: volume, centre of mass and second '
              'moments of the documented solid by quadrature, against exact integrals over the CAD boundary.  Non-trivial: '
              'unequal dimensions or at least one motion.')
vec = gen.vec(3.0)
motion = st.one_of(st.tuples(st.just('t'), vec).map(list), st.tuples(st.just('r'), st.tuples(ang, ang, ang).map(list)).map(list))


def moved(mesh, n, ops, ctx):
    for k, a in ops:
        if k == 't':
            mesh = ctx.call(g.translate_mesh, mesh, a)
            n = ref.move(n, None, a)
        else:
            mesh = ctx.call(g.rotate_mesh, mesh, *a)
            n = ref.move(n, ref.euler(*a))
    return mesh, n


@check.clause(fd(dict(c=any_solid, pm=st.booleans(), ops=st.lists(motion, max_size=3))), quick=2560, thorough=30000, shards=8)
def geometry(k, ctx):
    c = k['c']
    args, n = model(c['s'], c)
    what = f'genCAD.{c["s"]}{args}'
    mesh = ctx.call(getattr(g, c['s']), k['pm'], *args)
    ctx.label(c['s'], f'{len(k["ops"])} motions')
    ctx.nt(True)
    ctx.check(mesh.pmass == k['pm'], lambda: f'{what}: sign flag {mesh.pmass}, given {k["pm"]}')
    compare(ctx, mesh, n, what, 1e-5 if c['s'] in ('cylhole', 'platehole') else 1e-6)
    if k['ops']:
        mesh, n2 = moved(mesh, n, k['ops'], ctx)
        ctx.check(mesh.pmass == k['pm'], lambda: f'{what}: sign flag lost by {k["ops"]}')
        compare(ctx, mesh, n2, f'{what} after {k["ops"]}', 1e-5 if c['s'] in ('cylhole', 'platehole') else 1e-6)


simple = st.sampled_from(['sphere', 'annulus', 'rect_prism', 'tri_prism', 'pyramid', 'cone', 'tetrahedron2']).flatmap(
    lambda s: SOLIDS[s].map(lambda c: dict(s=s, **c)))


@check.clause(fd(dict(cs=st.lists(simple, min_size=2, max_size=3), hole=st.booleans(), order=st.booleans())), quick=400, thorough=4000, shards=8)
def sums(k, ctx):
    """Far-apart solids add up; a small brick cut out of a large one leaves a brick with a hole."""
    meshes, nodes = [], []
    x, big = 0.0, 0.0
    for i, c in enumerate(k['cs']):
        args, n = model(c['s'], c)
        m = ctx.call(getattr(g, c['s']), True, *args)
        r = m.val().BoundingBox().DiagonalLength+0.5    # every solid contains or touches the origin of its own frame
        d = [x+(r if i else 0.0), 3.0*i, 0.0]
        x, big = d[0]+r, max(big, r)
        meshes.append(g.translate_mesh(m, d))
        nodes.append(ref.move(n, None, d))
    if k['hole']:
        p = [0.0, 20.0+big, 5.0]
        big = g.translate_mesh(g.rect_prism(True, 4.0, 5.0, 6.0, 0), p)
        small = g.translate_mesh(g.rect_prism(False, 1.0, 2.0, 1.5, 0.3), p)
        meshes += [big, small]
        nodes.append(ref.move(S.poly_prism(S.rect(5.0, 6.0), -2, 2, 2), None, p))
        m = ref.move(S.poly_prism(S.rect(2.0, 1.5, 0.3), -.5, .5, 2), None, p)
        m[:, 0] *= -1
        nodes.append(m)
    before = [body(m)[0] for m in meshes]
    flags = [m.pmass for m in meshes]
    got = ctx.call(g.sum_mesh, meshes)
    ctx.nt(True)
    ctx.label('with a hole' if k['hole'] else 'disjoint')
    compare(ctx, got, np.vstack(nodes), f'sum of {[c["s"] for c in k["cs"]]}{" and a holed brick" if k["hole"] else ""}', 1e-6)
    ctx.check(got.pmass, 'the sum is not marked as having positive mass')
    for a, m in zip(before, meshes):
        ctx.check(abs(body(m)[0]-a) <= 1e-9*(1+a), 'summing changed one of the solids')


def stl_volume(path):
    import stl
    m = stl.mesh.Mesh.from_file(path)
    v = m.vectors.astype(float)
    vol = np.einsum('ij,ij->i', v[:, 0], np.cross(v[:, 1], v[:, 2]))/6
    cen = (v.sum(1)/4*vol[:, None]).sum(0)/vol.sum()
    return vol.sum(), cen


@check.clause(fd(dict(c=simple, d=vec, many=st.booleans())), quick=192, thorough=1500, shards=8)
def export(k, ctx):
    """The exported STL surface encloses the same volume about the same centre."""
    c = k['c']
    args, n = model(c['s'], c)
    what = f'genCAD.{c["s"]}{args} moved by {k["d"]}'
    mesh = g.translate_mesh(getattr(g, c['s'])(True, *args), k['d'])
    n = ref.move(n, None, k['d'])
    meshes = mesh
    size = mesh.val().BoundingBox().DiagonalLength
    far = [0, 0, 30.0+2*size]
    if k['many']:
        meshes = [mesh, g.translate_mesh(g.rect_prism(True, 1.0, 2.0, 3.0, 0.0), far)]
        n = np.vstack([n, ref.move(S.poly_prism(S.rect(2.0, 3.0), -.5, .5, 2), None, far)])
    ctx.nt(True)
    ctx.label('list' if k['many'] else 'single')
    d = f'/tmp/newtstl{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.call(g.save_stl, meshes, d+'/part')
        ctx.check(os.path.exists(d+'/part.stl'), lambda: f'{what}: no STL file written')
        V, cen = stl_volume(d+'/part.stl')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    want = of_nodes(n)
    # chord error 0.01 on bodies of size 0.3 to 3
    ctx.check(abs(V-want[0]) <= 0.2*want[0]+0.02, lambda: f'{what}: STL volume {V:.5g}, solid {want[0]:.5g}')
    tol = 0.12*max(1.0, far[2]*k['many'], size/3)
    ctx.check(np.abs(cen-want[1]).max() <= tol, lambda: f'{what}: STL centre {cen.tolist()}, solid {want[1].tolist()}')

from solidkit import *
import newt.qlm as qlm

check = Check('P17', 'Random dimensions over two decades (triangle vertices and distances of either sign, obtuse and acute), '
              'in-plane angles of any size, 3-12 (sometimes up to 64) sided polygons, degree 0-13, positive and negative mass.  Non-trivial: degree >= 2.')

deg = gen.degree((16, 2, 7), (4, 0, 13), (1, 14, 18))
sgn = signed(size())


def prism(verts, H, L):
    return S.poly_prism(verts, -H/2, H/2, L)


@st.composite
def ypair(draw):
    y1 = draw(gen.fl(-3, 3))
    y2 = y1+draw(signed(gen.fl(0.05, 3)))
    return [y1, round(y2, 6)]


def common_labels(ctx, L):
    ctx.nt(L >= 2)
    ctx.label(f'L{min(L//3*3, 9)}+')


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, H=size(), a=size(), b=size(), p=gen.angle())), lengths=('H', 'a', 'b')), quick=3000, thorough=40000, shards=2)
def rect_prism(c, ctx):
    L = c['L']
    common_labels(ctx, L)
    compare_inner(ctx, ctx.call(qlm.rect_prism, L, c['m'], c['H'], c['a'], c['b'], c['p']),
                  S.spin(prism(S.rect(c['a'], c['b']), c['H'], L), c['p']), L, f'rect_prism{tuple(c.values())}', mass=c['m'])


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, H=size(), a=size(), d=sgn, p=gen.angle())), lengths=('H', 'a', 'd')), quick=3000, thorough=40000, shards=2)
def tri_iso_prism(c, ctx):
    L = c['L']
    common_labels(ctx, L)
    a, d = c['a'], c['d']
    ctx.label('d<0' if d < 0 else 'd>0')
    v = [(0, 0), (d, -a/2), (d, a/2)]
    compare_inner(ctx, ctx.call(qlm.tri_iso_prism, L, c['m'], c['H'], a, d, c['p']), S.spin(prism(v, c['H'], L), c['p']), L,
                  f'tri_iso_prism{tuple(c.values())}', mass=c['m'])


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, H=size(), R=size(), w=st.tuples(gen.angle(), gen.fl(0.02, 1.55)))), lengths=('H', 'R')),
              quick=3000, thorough=40000, shards=2)
def tri_iso_prism2(c, ctx):
    L = c['L']
    common_labels(ctx, L)
    R, (pc, ph) = c['R'], c['w']
    v = [(0, 0), (R*math.cos(ph), -R*math.sin(ph)), (R*math.cos(ph), R*math.sin(ph))]
    compare_inner(ctx, ctx.call(qlm.tri_iso_prism2, L, c['m'], c['H'], R, pc, ph), S.spin(prism(v, c['H'], L), pc), L,
                  f'tri_iso_prism2{tuple(c.values())}', mass=c['m'])


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, H=size(), d=sgn, y=ypair())), lengths=('H', 'd'), pairs=('y',), signs=('y',)), quick=3000, thorough=40000, shards=3)
def tri_prism(c, ctx):
    L = c['L']
    common_labels(ctx, L)
    d, (y1, y2) = c['d'], c['y']
    ctx.label('d<0' if d < 0 else 'd>0', 'obtuse' if y1*y2 > 0 else 'straddling')
    v = [(0, 0), (d, y1), (d, y2)]
    compare_inner(ctx, ctx.call(qlm.tri_prism, L, c['m'], c['H'], d, y1, y2), prism(v, c['H'], L), L,
                  f'tri_prism{tuple(c.values())}', mass=c['m'], rel=2e-14*(1+3*max(abs(y1), abs(y2))/abs(y2-y1)))


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, H=size(), a=gen.pos(0.05, 2.0), p=gen.angle(), N=gen.degree((6, 3, 12), (1, 13, 64)))), lengths=('H', 'a')),
              quick=3000, thorough=40000, shards=3)
def ngon_prism(c, ctx):
    L, N = c['L'], c['N']
    ctx.nt(L >= 2)
    ctx.label(f'N{N}' if N < 13 else 'N13+', 'L>=N' if L >= N else 'L<N')
    compare_inner(ctx, ctx.call(qlm.ngon_prism, L, c['m'], c['H'], c['a'], c['p'], N),
                  prism(S.ngon(N, c['a'], c['p']), c['H'], L), L, f'ngon_prism{tuple(c.values())}', mass=c['m'])


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, x=size(), y=size(), z=size())), lengths=('x', 'y', 'z')), quick=3000, thorough=40000, shards=3)
def tetrahedron(c, ctx):
    L = c['L']
    common_labels(ctx, L)
    x, y, z = c['x'], c['y'], c['z']
    compare_inner(ctx, ctx.call(qlm.tetrahedron, L, c['m'], x, y, z),
                  S.tet([(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)], L), L, f'tetrahedron{tuple(c.values())}', mass=c['m'])


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, x=size(), y=ypair(), z=size())), lengths=('x', 'z'), pairs=('y',), signs=('y',)), quick=3000, thorough=40000, shards=4)
def tetrahedron2(c, ctx):
    L = c['L']
    common_labels(ctx, L)
    x, (y1, y2), z = c['x'], c['y'], c['z']
    ctx.label('obtuse' if y1*y2 > 0 else 'straddling')
    compare_inner(ctx, ctx.call(qlm.tetrahedron2, L, c['m'], x, y1, y2, z),
                  S.tet([(0, 0, 0), (x, y1, 0), (x, y2, 0), (0, 0, z)], L), L, f'tetrahedron2{tuple(c.values())}', mass=c['m'],
                  rel=2e-14*(1+3*max(abs(y1), abs(y2))/abs(y2-y1)))


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, x=size(), y=size(), z=size())), lengths=('x', 'y', 'z')), quick=3000, thorough=40000, shards=4)
def pyramid(c, ctx):
    L = c['L']
    common_labels(ctx, L)
    x, y, z = c['x'], c['y'], c['z']
    ctx.label('square' if x == y else 'oblong')
    compare_inner(ctx, ctx.call(qlm.pyramid, L, c['m'], x, y, z), S.pyramid(x, y, z, L), L,
                  f'pyramid{tuple(c.values())}', mass=c['m'])

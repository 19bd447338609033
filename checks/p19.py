from solidkit import *
import newt.qlmACH as qlmA
from p17 import ypair

check = Check('P19', 'Random dimensions over two decades, triangles with vertices and distances of either sign, trapezoids including '
              'those degenerating to a triangle or a rectangle, densities of either sign, maximum degree 0-8.  '
              'Non-trivial: maximum degree >= 2.')
fd = st.fixed_dictionaries
sgn = signed(size())


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, x=size(), y=size(), z=size())), lengths=('x', 'y', 'z')), quick=2500, thorough=40000)
def rect_prism(c, ctx):
    x, y, z = c['x'], c['y'], c['z']
    compare_ach(ctx, qlmA.rect_prism, (x, y, z), S.poly_prism(S.rect(x, y), -z/2, z/2, 5), c['L'],
                f'qlmACH.rect_prism{tuple(c.values())}', c['k'])


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, h=size(), d=sgn, y=ypair())), lengths=('h', 'd'), pairs=('y',), signs=('y',)), quick=2500, thorough=40000)
def tri_prism(c, ctx):
    y1, y2 = c['y']
    ctx.label('d<0' if c['d'] < 0 else 'd>0', 'y2<y1' if y2 < y1 else 'y2>y1', 'obtuse' if y1*y2 > 0 else 'straddling')
    compare_ach(ctx, qlmA.tri_prism, (c['h'], c['d'], y1, y2),
                S.poly_prism([(0, 0), (c['d'], y1), (c['d'], y2)], -c['h']/2, c['h']/2, 5), c['L'],
                f'qlmACH.tri_prism{tuple(c.values())}', c['k'])


@st.composite
def widths(draw):
    a, b = draw(size()), draw(size())
    k = draw(st.integers(0, 7))
    return [0.0, b] if k == 0 else ([a, 0.0] if k == 1 else ([a, a] if k == 2 else [a, b]))


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, t=size(), w=widths(), h=size())), lengths=('t', 'h'), pairs=('w',)), quick=2500, thorough=40000)
def trapezoid(c, ctx):
    w1, w2 = c['w']
    ctx.label('triangle' if 0.0 in (w1, w2) else ('rectangle' if w1 == w2 else 'trapezoid'))
    compare_ach(ctx, qlmA.trapezoid, (c['t'], w1, w2, c['h']),
                S.poly_prism(S.trapezoid_poly(w1, w2, c['h']), -c['t']/2, c['t']/2, 5), c['L'],
                f'qlmACH.trapezoid{tuple(c.values())}', c['k'])


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, x=size(), y=size(), z=size())), lengths=('x', 'y', 'z')), quick=2000, thorough=40000)
def tetrahedron(c, ctx):
    x, y, z = c['x'], c['y'], c['z']
    compare_ach(ctx, qlmA.tetrahedron, (x, y, z), S.tet([(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)], 5), c['L'],
                f'qlmACH.tetrahedron{tuple(c.values())}', c['k'])


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, h=size(), x=size(), y=size())), lengths=('h', 'x', 'y')), quick=2000, thorough=40000)
def pyramid(c, ctx):
    x, y, h = c['x'], c['y'], c['h']
    ctx.label('square' if x == y else 'oblong')
    compare_ach(ctx, qlmA.pyramid, (h, x, y), S.pyramid(x/2, y/2, h, 5), c['L'], f'qlmACH.pyramid{tuple(c.values())}', c['k'])

from solidkit import *
import newt.qlmACH as qlmA

check = Check('P18', 'Random dimensions over two decades, wedge angles in (0, pi] at every azimuth, complete and truncated cones '
              'either way up, hole radii from 1/20 of the cylinder radius up to equal, hole tilts up to 1.45 rad of either sign, '
              'densities of either sign, maximum degree 0-8.  Non-trivial: maximum degree >= 2.')
fd = st.fixed_dictionaries


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, H=size(), r=radii(), w=wedge())), lengths=('H',), pairs=('r',), wedges=('w',)), quick=2500, thorough=40000, shards=2)
def annulus(c, ctx):
    ri, ro = c['r']
    pc, ph = c['w']
    ctx.label('full' if ph == math.pi else 'wedge')
    compare_ach(ctx, qlmA.annulus, (c['H'], ri, ro, pc, ph), S.annulus(-c['H']/2, c['H']/2, ri, ro, pc, ph, 5), c['L'],
                f'qlmACH.annulus{tuple(c.values())}', c['k'], extra=1+(ro/(ro-ri))*0.1)


@st.composite
def cone_radii(draw):
    a, b = draw(size()), draw(size())
    k = draw(st.integers(0, 6))
    return [0.0, b] if k == 0 else ([a, 0.0] if k == 1 else ([a, a] if k == 2 else [a, b]))


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, h=size(), r=cone_radii())), lengths=('h',), pairs=('r',)), quick=2500, thorough=40000)
def cone(c, ctx):
    r1, r2 = c['r']
    ctx.label('complete' if 0.0 in (r1, r2) else 'truncated')
    compare_ach(ctx, qlmA.cone, (c['h'], r1, r2), S.frustum(-c['h']/2, c['h']/2, r2, r1, 0.0, math.pi, 5), c['L'],
                f'qlmACH.cone{tuple(c.values())}', c['k'])


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, h=size(), r=cone_radii())), lengths=('h',), pairs=('r',)), quick=2500, thorough=40000)
def cone2(c, ctx):
    r1, r2 = c['r']
    ctx.label('complete' if 0.0 in (r1, r2) else 'truncated')
    compare_ach(ctx, qlmA.cone2, (c['h'], r1, r2), S.frustum(0.0, c['h'], r1, r2, 0.0, math.pi, 5), c['L'],
                f'qlmACH.cone2{tuple(c.values())}', c['k'])


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, t=size(), r=size(), f=gen.pick((8, gen.fl(0.02, 0.98)), (2, st.sampled_from([1e-7, 1e-5, 1e-3, 0.01, 0.99, 0.995, 0.9975, 0.9992]))))), lengths=('t', 'r')), quick=1500, thorough=30000)
def cylindrical_section(c, ctx):
    r = c['r']
    d = r*c['f']
    compare_ach(ctx, qlmA.cylindrical_section, (c['t'], r, d), S.segment(c['t'], r, d, 5), c['L'],
                f'qlmACH.cylindrical_section{tuple(c.values())}', c['k'], extra=1/(1-c['f'])**1.5)


def tilt():
    small = st.sampled_from([0.0, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 0.01, 0.03])
    return gen.pick((8, gen.fl(-1.45, 1.45)), (1, small), (1, small.map(lambda v: -v)))


def hole_f():
    return gen.pick((8, gen.fl(0.05, 1.0)), (2, st.just(1.0)), (2, st.sampled_from([0.95, 0.99, 0.995, 0.999, 1-1e-5, 1-1e-9, 0.02, 1e-3])))


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, R=size(), f=hole_f())), lengths=('R',)), quick=1200, thorough=15000, shards=2)
def cylhole(c, ctx):
    R, r = c['R'], c['R']*c['f']
    ctx.label('equal radii' if c['f'] == 1 else 'unequal')
    compare_ach(ctx, qlmA.cylhole, (r, R), S.cylhole(r, R, 5), c['L'], f'qlmACH.cylhole{tuple(c.values())}', c['k'], extra=5)


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, R=size(), f=hole_f())), lengths=('R',)), quick=1200, thorough=15000, shards=2)
def cylhole2(c, ctx):
    R, r = c['R'], c['R']*c['f']
    ctx.label('equal radii' if c['f'] == 1 else 'unequal')
    compare_ach(ctx, qlmA.cylhole2, (r, R), S.cylhole(r, R, 5), c['L'], f'qlmACH.cylhole2{tuple(c.values())}', c['k'],
                extra=5+1/c['f']**2)


@check.clause(odd(fd(dict(L=LMAX, k=rho_s, t=size(), r=size(), th=tilt())), lengths=('t', 'r')), quick=2000, thorough=40000)
def platehole(c, ctx):
    ctx.label('tilt<0' if c['th'] < 0 else ('tilt>0' if c['th'] > 0 else 'straight'))
    compare_ach(ctx, qlmA.platehole, (c['t'], c['r'], c['th']), S.platehole(c['t'], c['r'], c['th'], 5), c['L'],
                f'qlmACH.platehole{tuple(c.values())}', c['k'], extra=2)

from solidkit import *
import newt.qlm as qlm

check = Check('P16', 'Random dimensions over two decades, wedge half-angles in (0, pi] at every azimuth, degree 0-13, positive '
              'and negative mass.  Non-trivial: degree >= 2 (sphere: degree >= 1).')

deg = gen.degree((16, 2, 7), (4, 0, 13), (1, 14, 18))


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, R=size())), lengths=('R',)), quick=150, thorough=3000)
def sphere(c, ctx):
    ctx.nt(c['L'] >= 1)
    compare_inner(ctx, ctx.call(qlm.sphere, c['L'], c['m'], c['R']), S.sphere(c['R'], c['L']), c['L'],
                  f"sphere(R={c['R']})", mass=c['m'])


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, H=size(), R=size())), lengths=('H', 'R')), quick=3000, thorough=40000, shards=2)
def cylinder(c, ctx):
    L = c['L']
    ctx.nt(L >= 2)
    ctx.label('flat' if c['H'] < c['R'] else 'long', f'L{min(L//3*3, 9)}+')
    got = ctx.call(qlm.cylinder, L, c['m'], c['H'], c['R'])
    compare_inner(ctx, got, S.annulus(-c['H']/2, c['H']/2, 0.0, c['R'], 0.0, math.pi, L), L,
                  f"cylinder(H={c['H']}, R={c['R']}) degree {L}", mass=c['m'])


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, H=size(), r=radii(), w=wedge())), lengths=('H',), pairs=('r',), wedges=('w',)), quick=3000, thorough=60000, shards=5)
def annulus(c, ctx):
    L = c['L']
    ri, ro = c['r']
    pc, ph = c['w']
    ctx.nt(L >= 2)
    ctx.label('solid' if ri == 0 else 'hollow', 'full' if ph == math.pi else 'wedge', f'L{min(L//3*3, 9)}+')
    got = ctx.call(qlm.annulus, L, c['m'], c['H'], ri, ro, pc, ph)
    compare_inner(ctx, got, S.annulus(-c['H']/2, c['H']/2, ri, ro, pc, ph, L), L,
                  f"annulus(H={c['H']}, Ri={ri}, Ro={ro}, phic={pc}, phih={ph}) degree {L}", mass=c['m'],
                  rel=2e-14/min(1.0, 1-(ri/ro)**2))


@check.clause(odd(st.fixed_dictionaries(dict(L=deg, m=mass_s, P=size(), R=size(), w=wedge())), lengths=('P', 'R'), wedges=('w',)), quick=3000, thorough=60000, shards=5)
def cone(c, ctx):
    L = c['L']
    pc, ph = c['w']
    ctx.nt(L >= 2)
    ctx.label('full' if ph == math.pi else 'wedge', f'L{min(L//3*3, 9)}+')
    got = ctx.call(qlm.cone, L, c['m'], c['P'], c['R'], pc, ph)
    compare_inner(ctx, got, S.frustum(0.0, c['P'], c['R'], 0.0, pc, ph, L), L,
                  f"cone(P={c['P']}, R={c['R']}, phic={pc}, phih={ph}) degree {L}", mass=c['m'])

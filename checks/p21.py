from solidkit import *
import newt.bigQlm as bq

check = Check('P21', 'Annular sections above and below the plane with inner radius 0.02-0.999 of the outer one, heights from 0.01 to 1000 '
              'outer radii, wedge half-angles in (0, pi] at every azimuth, spheres anywhere, densities of either sign, maximum '
              'degree 0-8.  Non-trivial: maximum degree >= 2.')
fd = st.fixed_dictionaries


@check.clause(fd(dict(L=st.integers(0, 8), k=rho_s, R=gen.pos(0.05, 2.0), d=gen.direction(), r=gen.fl(2.05, 8.0))), quick=1500, thorough=40000)
def sphere(c, ctx):
    L = c['L']
    x = [c['r']*v for v in c['d']]
    ctx.nt(L >= 2)
    got = ctx.call(bq.sphere, L, c['k'], c['R'], *x)
    P = [[c['k']*4/3*math.pi*c['R']**3]+x]
    ctx.close(got, ref.outer(L, P), outer_tol(L, P)+1e-300, f'bigQlm.sphere degree {L} at {x}')


@check.clause(fd(dict(L=LMAX, k=rho_s, H=gen.pick((6, gen.fl(0.15, 1.5)), (3, gen.fl(0.15, 6.0)), (1, st.just(1.0)), (2, gen.fl(0.01, 0.15)),
                      (2, st.sampled_from([8.0, 20.0, 50.0, 110.0, 150.0, 400.0, 1000.0]))), s=st.sampled_from([1, -1]), ro=size(),
                      f=gen.pick((8, gen.fl(0.1, 0.95)), (1, gen.fl(0.02, 0.1)), (1, gen.fl(0.95, 0.999))), w=wedge())), quick=3000, thorough=60000, shards=7)
def annulus(c, ctx):
    LMax, ro = c['L'], c['ro']
    ri, H = ro*c['f'], ro*c['H']*c['s']
    pc, ph = c['w']
    what = f'bigQlm.annulus(H={H}, {ri}, {ro}, phic={pc}, phih={ph}) LMax {LMax}'
    got = np.asarray(ctx.call(bq.annulus, LMax, c['k'], H, ri, ro, pc, ph))
    ctx.check(got.shape == (LMax+1, 2*LMax+1), lambda: f'{what}: shape {got.shape}')
    K = min(LMax, 5)
    ctx.nt(LMax >= 2)
    ctx.label('above' if H > 0 else 'below', 'full' if ph == math.pi else 'wedge', 'turned' if pc else 'straight')
    want, sc = outer_of(S.outer_annulus(min(H, 0.0), max(H, 0.0), ri, ro, pc, ph, 5), K, c['k'])
    h = c['H']
    # rounding of the closed forms: flat sections lose (H/ro)^(1-l), long ones H^2, H in degrees 0, 1
    rel = np.array([1e-12+2e-14*min(h, 1.0)**(1-max(l, 1))+1e-14*max(h, 1.0)**max(2-l, 0) for l in range(K+1)])*(1+0.1/(1-c['f']))
    tol = np.repeat((rel*sc)[:, None], 2*K+1, 1)+1e-300
    ctx.close(got[:K+1, LMax-K:LMax+K+1], want, tol, what)
    ctx.check(np.isfinite(got).all(), f'{what}: non-finite entries')

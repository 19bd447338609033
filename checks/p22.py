from solidkit import *
import numkit
import newt.bigQlmNum as bn

check = Check('P22', 'Annular, conical and trapezoidal sections off the origin (inner radius down to 0.2 of the outer one, or zero '
              'when clear of the plane), degree 0-5 with a fast nested Gauss rule standing in for scipy tplquad (many cases) and '
              'degree 0-2 with the genuine integrator (few cases).  Non-trivial: degree >= 1.',
              assumptions=['the *_fast clauses replace scipy.integrate.tplquad by a deterministic Gauss rule; the *_real clauses do not'])
fd = st.fixed_dictionaries
sz = gen.pos(0.3, 2.0)


@st.composite
def rh(draw, zero=False):
    """(ri, ro, h1, h2) with the nearest point not too close compared to the size."""
    ro = draw(sz)
    k = draw(st.integers(0, 3))
    if k == 0 and zero:
        h1 = ro*draw(gen.fl(0.4, 1.5))
        h2 = h1+ro*draw(gen.fl(0.1, 1.0))
        if draw(st.booleans()):
            h1, h2 = -h2, -h1
        return [0.0 if draw(st.booleans()) else ro*draw(gen.fl(0.05, 0.9)), ro, h1, h2]
    ri = ro*draw(gen.fl(0.35, 0.95))
    h1 = ro*draw(gen.fl(-1, 1))
    d = ro*draw(gen.fl(0.1, 1.2))
    return [ri, ro]+draw(st.sampled_from([[h1, h1+d]]*6+[[-d, d], [0.0, d], [-d, 0.0]]))


ph_full = gen.pick((3, gen.fl(0.05, math.pi)), (2, gen.fl(0.05, 1.5)), (1, gen.fl(2.5, math.pi)), (3, st.just(math.pi)),
                   (1, st.sampled_from([0.01, 1e-3, math.pi/2, math.pi-0.01, math.pi-1e-3, math.pi-1e-5])))
shape = st.one_of(
    fd(dict(s=st.just('annulus'), k=rho_s, ph=ph_full, r=rh(True))),
    fd(dict(s=st.just('cone'), k=rho_s, ph=ph_full, r=rh(), H=gen.fl(0.2, 1.5))),
    fd(dict(s=st.just('trap'), k=rho_s, ph=gen.pick((6, gen.fl(0.05, 1.0)), (2, gen.fl(0.9, 1.3)), (2, st.sampled_from([0.03, 0.01, 1e-3, 1e-5]))), r=rh(True))))


def body(c, L, ctx, mode, rel):
    s, k, ph = c['s'], c['k'], c['ph']
    ri, ro, h1, h2 = c['r']
    if s == 'annulus':
        f, a = bn.annulus, (L, k, h1, h2, ri, ro, ph)
        n = S.outer_annulus(h1, h2, ri, ro, 0.0, ph, L)
    elif s == 'cone':
        H = c['H']*ro
        f, a = bn.outer_cone, (L, k, H, ri, ro, ph)
        n = S.outer_cone_shell(H, ri, ro, 0.0, ph, L)
    else:
        f, a = bn.trapezoid, (L, k, h1, h2, ri, ro, ph)
        n = S.outer_trap(h1, h2, ri, ro, ph)
    ctx.label(s, f'L{L}', 'axis' if ri == 0 else 'off-axis')
    ctx.nt(L >= 1)
    with mode():
        got = ctx.call(f, *a)
    got = np.asarray(got)
    what = f'bigQlmNum {s}{a}'
    ctx.check(got.shape == (L+1, 2*L+1), lambda: f'{what}: shape {got.shape}')
    want, sc = outer_of(n, L, k)
    tol = np.array([[sc[l]*rel+1e-7*abs(k)*(mode is numkit.real)]*(2*L+1) for l in range(L+1)])
    ctx.close(got, want, tol, what)


@check.clause(fd(dict(c=shape, L=st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5]))), quick=1200, thorough=30000, shards=8)
def fast(c, ctx):
    body(c['c'], c['L'], ctx, lambda: numkit.fast(22, 2), 1e-6)


@check.clause(fd(dict(c=shape, L=st.sampled_from([0, 1, 1, 2]))), quick=240, thorough=4000, shards=8)
def genuine(c, ctx):
    body(c['c'], c['L'], ctx, numkit.real, 1e-6)

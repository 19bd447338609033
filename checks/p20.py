from solidkit import *
import numkit
import newt.qlmNum as qn

check = Check('P20', 'Sections with inner radius 0 up to 0.95 of the outer one, heights of either sign, wedge half-angles up to pi, '
              'holes with radius ratio up to 1, tilts of either sign, degree 0-5 with a fast nested Gauss rule standing in for '
              'scipy tplquad (many cases) and degree 0-2 with the genuine integrator (few cases).  Non-trivial: degree >= 1.',
              assumptions=['the *_fast clauses replace scipy.integrate.tplquad by a deterministic Gauss rule; the *_real clauses do not'])
fd = st.fixed_dictionaries
sz = gen.pos(0.2, 2.0)


def hh():
    d = gen.fl(0.1, 2)
    return gen.pick((6, st.tuples(gen.fl(-2, 2), d).map(lambda t: [t[0], t[0]+t[1]])), (1, d.map(lambda h: [-h, h])), (1, d.map(lambda h: [0.0, h])), (1, d.map(lambda h: [-h, 0.0])))


@st.composite
def rr(draw):
    ro = draw(sz)
    return [0.0 if draw(st.integers(0, 4)) == 0 else ro*draw(gen.fl(0.05, 0.95)), ro]


ph_full = gen.pick((3, gen.fl(0.05, math.pi)), (2, gen.fl(0.05, 1.5)), (1, gen.fl(2.5, math.pi)), (3, st.just(math.pi)),
                   (1, st.sampled_from([0.01, 1e-3, math.pi/2, math.pi-0.01, math.pi-1e-3, math.pi-1e-5])))
ph_half = gen.pick((6, gen.fl(0.05, 1.4)), (2, gen.fl(1.3, 1.5)), (2, st.sampled_from([0.03, 0.01, 1e-3, 1e-5])))
tiny = st.sampled_from([1e-7, 1e-5, 1e-4, 1e-3, 0.01, 0.03])
one = dict(
    cyl=fd(dict(s=st.just('cyl'), k=rho_s, ph=ph_full, r=rr(), h=hh())),
    cone=fd(dict(s=st.just('cone'), k=rho_s, ph=ph_full, r=rr(), H=sz)),
    trap=fd(dict(s=st.just('trap'), k=rho_s, ph=ph_half, r=rr(), h=hh())),
    steinmetz=fd(dict(s=st.just('steinmetz'), k=rho_s, R=sz, f=gen.pick((6, gen.fl(0.1, 0.95)), (2, st.just(1.0)), (2, gen.fl(0.95, 1.0)), (1, st.sampled_from([0.995, 0.999, 1-1e-5, 1-1e-9]))))),
    platehole=fd(dict(s=st.just('platehole'), k=rho_s, t=sz, r=sz, th=gen.pick((6, gen.fl(-1.2, 1.2)), (2, gen.fl(-1.45, 1.45)), (1, st.just(0.0)), (1, tiny), (1, tiny.map(lambda v: -v))))))
smooth = st.one_of(one['cyl'], one['cone'], one['trap'])
rough = st.one_of(one['steinmetz'], one['platehole'])


def body(c, L, ctx, mode, rel):
    s, k = c['s'], c['k']
    if s == 'cyl':
        f, a = qn.cyl_mom, (L, k, c['ph'], *c['r'], *c['h'])
        n = S.annulus(*c['h'], *c['r'], 0.0, c['ph'], L)
    elif s == 'cone':
        f, a = qn.cone_mom, (L, k, c['ph'], *c['r'], c['H'])
        n = S.cone_shell(c['H'], *c['r'], 0.0, c['ph'], L)
    elif s == 'trap':
        f, a = qn.trap_mom, (L, k, c['ph'], *c['r'], *c['h'])
        n = S.poly_prism(S.corner_trap(*c['r'], c['ph']), *c['h'], L)
    elif s == 'steinmetz':
        r = c['R']*c['f']
        f, a = qn.steinmetz, (L, k, r, c['R'])
        n = S.cylhole(r, c['R'], L, axis='x')
    else:
        f, a = qn.platehole, (L, k, c['t'], c['r'], c['th'])
        n = S.platehole(c['t'], c['r'], c['th'], L, frame='hole')
    ctx.label(s, f'L{L}')
    ctx.nt(L >= 1)
    with mode():
        got = ctx.call(f, *a)
    got = np.asarray(got)
    what = f'qlmNum {s}{a}'
    ctx.check(got.shape == (L+1, 2*L+1), lambda: f'{what}: shape {got.shape}')
    want, w = table_of(n, L, dens=k)
    sc = inner_scale(w, L)
    tol = np.array([[sc[l]*rel+1e-7*abs(k)*(mode is numkit.real)]*(2*L+1) for l in range(L+1)])
    ctx.close(got, want, tol, what)


@check.clause(fd(dict(c=smooth, L=st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5]))), quick=1600, thorough=40000, shards=8)
def sections_fast(c, ctx):
    body(c['c'], c['L'], ctx, numkit.fast, 1e-6)


@check.clause(fd(dict(c=rough, L=st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5]))), quick=1200, thorough=20000, shards=8)
def holes_fast(c, ctx):
    body(c['c'], c['L'], ctx, numkit.fast, 1e-4 if c['c'].get('f', 0) > 0.95 else 1e-6)


@check.clause(fd(dict(c=smooth, L=st.sampled_from([0, 1, 1, 2]))), quick=240, thorough=4000, shards=8)
def sections_real(c, ctx):
    body(c['c'], c['L'], ctx, numkit.real, 1e-7)


@check.clause(fd(dict(c=rough, L=st.sampled_from([0, 1, 1]))), quick=64, thorough=1000, shards=8)
def holes_real(c, ctx):
    body(c['c'], c['L'], ctx, numkit.real, 1e-6)

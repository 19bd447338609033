from common import *
import newt.pg2Multi as pgm

check = Check('P04', 'Point arrays incl. points at the origin, on axes, negative masses, degree 0-30; '
              'non-trivial: degree >= 1 and an off-axis point of non-zero mass.')


@st.composite
def cloud(draw, origin=True):
    k = draw(st.integers(0, 9))
    if k == 0:
        P = bulk(draw(st.one_of(st.integers(7, 80), st.integers(7, 80), st.integers(81, 2500))), draw(st.integers(0, 9999)), 2, draw(st.booleans())).tolist()
    else:
        P = draw(gen.points(1, 6))
    if origin and draw(st.integers(0, 3)) == 0:
        P.insert(draw(st.integers(0, len(P))), [draw(gen.mass()), 0.0, 0.0, 0.0])
    if not origin:
        P = [p if math.hypot(*p[1:]) >= 0.05 else [p[0], p[1]+0.5, p[2], p[3]] for p in P]
    P = draw(gen.spread(P))
    s = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 0.1, 10.0, 1e-3, 1e-6, 1e-9, 1e4, 1e-15, 1e-20, 1e12]))
    if not origin:      # degree 30 must not overflow
        s = max(s, 1e-9/min(math.hypot(*p[1:]) for p in P))
    else:
        s = min(s, 5e9/max(1e-9, max(math.hypot(*p[1:]) for p in P)))
    return [[p[0]]+[s*x for x in p[1:]] for p in P]


deg = st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(0, 30))


def offaxis(P):
    return any(p[0] != 0 and sum(abs(x) > 1e-9 for x in p[1:]) >= 2 for p in P)


@check.clause(st.fixed_dictionaries(dict(p=cloud(), L=deg)), quick=1200, thorough=30000, shards=3, near=('p',))
def table(c, ctx):
    P, L = arr(c['p']), c['L']
    b = P.copy()
    q = ctx.call(pgm.qmoments, L, P)
    ctx.nt(L >= 1 and offaxis(c['p']))
    ctx.label('origin' if (np.abs(P[:, 1:]).sum(1) == 0).any() else 'no-origin')
    unchanged(ctx, [b], [P], 'qmoments')
    ctx.close(q, ref.inner(L, P), inner_tol(L, P)+1e-300, f'qmoments({L})')


@check.clause(st.fixed_dictionaries(dict(p=cloud(), l=deg, f=gen.fl(-1, 1))), quick=1200, thorough=30000, shards=2)
def single(c, ctx):
    P, l = arr(c['p']), c['l']
    m = int(round(c['f']*l))
    want = ref.inner(l, P)
    tol = inner_tol(l, P)[l, 0]+1e-300
    ctx.nt(l >= 1 and offaxis(c['p']))
    ctx.label('origin' if (np.abs(P[:, 1:]).sum(1) == 0).any() else 'no-origin', 'm<0' if m < 0 else 'm>=0')
    b = P.copy()
    ctx.close(ctx.call(pgm.qmoment, l, m, P), want[l, l+m], tol, f'qmoment({l},{m})')
    unchanged(ctx, [b], [P], 'qmoment')
    q = ctx.call(pgm.qmoment, l, -m, P)
    ctx.close(q, want[l, l-m], tol, f'qmoment({l},{-m})')


@check.clause(st.fixed_dictionaries(dict(
    p=st.lists(st.tuples(st.integers(-4, 4), st.integers(-5, 5), st.integers(-5, 5), st.integers(-5, 5)).map(list),
               min_size=1, max_size=6), L=st.integers(0, 6))), quick=200, thorough=4000)
def integer_arrays(c, ctx):
    P = np.array(c['p'])
    F = P.astype(float)
    L = c['L']
    ctx.nt(L >= 1 and offaxis(c['p']))
    ctx.close(ctx.call(pgm.qmoments, L, P), ref.inner(L, F), inner_tol(L, F)+1e-300, 'qmoments of an integer array')
    ctx.close(ctx.call(pgm.qmoment, L, L//2, P), ref.inner(L, F)[L, L+L//2], inner_tol(L, F)[L, 0]+1e-300,
              'qmoment of an integer array')


@check.clause(st.fixed_dictionaries(dict(p=gen.shell_points(1, 4, 0.3, 3.0), L=st.integers(31, 80), f=gen.fl(-1, 1))), quick=60, thorough=1500)
def high_degree(c, ctx):
    P, L = arr(c['p']), c['L']
    m = int(round(c['f']*L))
    want, tol = ref.inner(L, P), inner_tol(L, P)+1e-300
    ctx.nt(offaxis(c['p']))
    ctx.close(ctx.call(pgm.qmoments, L, P), want, tol, f'qmoments({L})')
    ctx.close(ctx.call(pgm.qmoment, L, m, P), want[L, L+m], tol[L, 0], f'qmoment({L},{m})')

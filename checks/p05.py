from common import *
import newt.pg2Multi as pgm
from p04 import cloud, deg, offaxis

check = Check('P05', 'Point arrays away from the origin, degree 0-30; non-trivial: degree >= 1 and an off-axis '
              'point of non-zero mass.  A separate clause covers arrays containing the origin.')


@check.clause(st.fixed_dictionaries(dict(p=cloud(origin=False), L=deg)), quick=1200, thorough=30000, shards=3, near=('p',))
def table(c, ctx):
    P, L = arr(c['p']), c['L']
    b = P.copy()
    q = ctx.call(pgm.Qmomentsb, L, P)
    ctx.nt(L >= 1 and offaxis(c['p']))
    unchanged(ctx, [b], [P], 'Qmomentsb')
    ctx.close(q, ref.outer(L, P), outer_tol(L, P)+1e-300, f'Qmomentsb({L})')


@check.clause(st.fixed_dictionaries(dict(p=cloud(origin=False), l=deg, f=gen.fl(-1, 1))), quick=1200, thorough=30000, shards=2)
def single(c, ctx):
    P, l = arr(c['p']), c['l']
    m = int(round(c['f']*l))
    want = ref.outer(l, P)
    tol = outer_tol(l, P)[l, 0]+1e-300
    ctx.nt(l >= 1 and offaxis(c['p']))
    ctx.label('m<0' if m < 0 else 'm>=0')
    b = P.copy()
    ctx.close(ctx.call(pgm.Qmomentb, l, m, P), want[l, l+m], tol, f'Qmomentb({l},{m})')
    unchanged(ctx, [b], [P], 'Qmomentb')
    ctx.close(ctx.call(pgm.Qmomentb, l, -m, P), want[l, l-m], tol, f'Qmomentb({l},{-m})')


@check.clause(st.fixed_dictionaries(dict(p=cloud(origin=False), L=st.integers(0, 6), k=st.integers(0, 9))),
              quick=200, thorough=3000)
def origin_gives_zero(c, ctx):
    P = c['p'][:]
    P.insert(c['k'] % (len(P)+1), [1.5, 0.0, 0.0, 0.0])
    L = c['L']
    ctx.nt(L >= 1)
    ctx.close(ctx.call(pgm.Qmomentsb, L, arr(P)), np.zeros((L+1, 2*L+1)), 0, 'moments with a point at the origin')
    ctx.close(ctx.call(pgm.Qmomentb, L, L//2, arr(P)), 0, 0, 'moment with a point at the origin')


@check.clause(st.fixed_dictionaries(dict(
    p=st.lists(st.tuples(st.integers(-4, 4), st.integers(1, 5), st.integers(-5, 5), st.integers(-5, 5)).map(list),
               min_size=1, max_size=6), L=st.integers(0, 6))), quick=200, thorough=4000)
def integer_arrays(c, ctx):
    P = np.array(c['p'])
    F = P.astype(float)
    L = c['L']
    ctx.nt(L >= 1 and offaxis(c['p']))
    ctx.close(ctx.call(pgm.Qmomentsb, L, P), ref.outer(L, F), outer_tol(L, F)+1e-300, 'Qmomentsb of an integer array')


@check.clause(st.fixed_dictionaries(dict(p=gen.shell_points(1, 4, 0.3, 3.0), L=st.integers(31, 80), f=gen.fl(-1, 1))), quick=60, thorough=1500)
def high_degree(c, ctx):
    P, L = arr(c['p']), c['L']
    m = int(round(c['f']*L))
    want, tol = ref.outer(L, P), outer_tol(L, P)+1e-300
    ctx.nt(offaxis(c['p']))
    ctx.close(ctx.call(pgm.Qmomentsb, L, P), want, tol, f'Qmomentsb({L})')
    ctx.close(ctx.call(pgm.Qmomentb, L, m, P), want[L, L+m], tol[L, 0], f'Qmomentb({L},{m})')

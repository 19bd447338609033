from common import *
import newt.translations as trs
import newt.translationRecurs as trr

check = Check('P09', 'Bodies of 1-5 points (mixed-sign mass), displacements generic/axial/antiparallel/zero, '
              'Clebsch-Gordan method to degree 5-6, recursive to degree 14, histories of 1-4 shifts.  Non-trivial: '
              'degree >= 1, non-zero displacement with two or more non-zero components or along -z.')

disp = st.one_of(gen.vec(3.0), gen.vec(3.0), gen.vec(0.05), gen.vec(30.0),
                 st.tuples(st.sampled_from([0, 1, 2]), gen.fl(-3, 3)).map(
                     lambda t: [t[1] if i == t[0] else 0.0 for i in range(3)]),
                 st.just([0.0, 0.0, 0.0]))
METHODS = {'cg': trs.translate_qlm, 'recurs': trr.translate_qlm}


def tolr(L, P, ds, rel):
    """Rounding scale: every point moved outward by the total displacement."""
    D = sum(np.linalg.norm(d) for d in ds)
    r = np.sqrt((P[:, 1:]**2).sum(1))+D
    dth = sum(pole_err(d)[0]*np.linalg.norm(d) for d in ds)/(D or 1)
    return np.array([[np.sum(np.abs(P[:, 0])*r**l)*(rel*2**(l/2)+(l+1)**2*dth)]*(2*L+1) for l in range(L+1)])+1e-300


def body(c, ctx, method):
    P, d = arr(c['p']), np.array(c['d'])*c['u']
    P[:, 1:] *= c['u']
    L = c['L']
    q = ref.inner(L, P)
    b = [q.copy(), d.copy()]
    got = ctx.call(METHODS[method], q, d if c['arr'] else list(d))
    unchanged(ctx, b, [q, d], 'translate_qlm')
    nz = np.count_nonzero(d)
    ctx.nt(L >= 1 and (nz >= 2 or d[2] < 0) and np.abs(P[:, 0]).max() > 0)
    ctx.label('zero' if nz == 0 else f'{nz}-component')
    ctx.close(got, ref.inner(L, ref.move(P, None, d)), tolr(L, P, [d], 1e-11), f'{method} translate_qlm by {c["d"]}, unit {c["u"]}')


def cases(Lmax, Lmin=0, u=gen.unit()):
    return st.fixed_dictionaries(dict(p=gen.points(1, 5), d=disp, L=st.integers(Lmin, Lmax), arr=st.booleans(), u=u))


@check.clause(cases(4), quick=600, thorough=5000, shards=3, near=('d',))
def cg(c, ctx):
    body(c, ctx, 'cg')


@check.clause(cases(14), quick=2400, thorough=20000, shards=3, near=('d',))
def recurs(c, ctx):
    body(c, ctx, 'recurs')


@check.clause(st.fixed_dictionaries(dict(p=gen.points(1, 4), ds=st.lists(disp, min_size=2, max_size=4),
                                         ms=st.lists(st.booleans(), min_size=4, max_size=4), L=st.integers(0, 4))),
              quick=300, thorough=3000, shards=2)
def histories(c, ctx):
    P, L = arr(c['p']), c['L']
    q = ref.inner(L, P)
    cur = q.copy()
    tot = np.zeros(3)
    for k, d in enumerate(c['ds']):
        b = cur.copy()
        nxt = ctx.call(METHODS['cg' if c['ms'][k] else 'recurs'], cur, np.array(d))
        unchanged(ctx, [b], [cur], 'translate_qlm')
        tot = tot+d
        cur = np.asarray(nxt)
    ctx.nt(L >= 1 and sum(1 for d in c['ds'] if any(d)) >= 2)
    ctx.close(cur, ref.inner(L, ref.move(P, None, tot)), 5*tolr(L, P, c['ds'], 1e-11), 'composition of translations')


@check.clause(st.fixed_dictionaries(dict(p=gen.points(1, 3), d=disp, L=st.integers(5, 10), arr=st.booleans(), u=gen.unit())),
              quick=100, thorough=1200, shards=4)
def cg_high(c, ctx):
    body(c, ctx, 'cg')


@check.clause(cases(40, 15, st.sampled_from([1.0, 1.0, 0.0254, 1e-3, 1e3])), quick=120, thorough=1500)
def recurs_high(c, ctx):
    body(c, ctx, 'recurs')

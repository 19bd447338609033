from common import *
import newt.translations as trs
import newt.translationRecurs as trr

check = Check('P10', 'Arbitrary conjugate-symmetric outer-moment tables (degree 0-20 recursive, 0-10 Clebsch-Gordan) and '
              'tables of distant sources; displacements generic/axial/zero.  Non-trivial: degree >= 1 and a non-zero displacement.')

disp = st.one_of(gen.vec(1.0), gen.vec(1.0), gen.vec(4.0), gen.vec(0.05), st.just([0.0, 0.0, 0.0]))
METHODS = {'cg': trs.translate_Qlmb, 'recurs': trr.translate_Qlmb}


def scales(Q, ds):
    """Natural size of each translated degree: sum_l' |Q_l'| D^(l'-l) binom."""
    L = len(Q)-1
    D = sum(np.linalg.norm(d) for d in ds)
    a = table_abs(Q)
    dth = sum(pole_err(d)[0] for d in ds)
    s = np.zeros(L+1)
    for l in range(L+1):
        s[l] = sum(a[k]*D**(k-l)*math.comb(2*k, k-l)*(3e-12*(1+k)+dth*(1+k)**2) for k in range(l, L+1))
    return s


def expect(Q, d):
    L = len(Q)-1
    rho = max(np.linalg.norm(d), 1e-3)
    q, fmax = project_outer(L, lambda x: ref.outer_field(Q, x-np.asarray(d)), rho, L+2)
    err = np.array([1e-13*fmax*(2*l+1)/rho**l for l in range(L+1)])
    return q, err


def body(c, ctx, method):
    Q = mk_table(c['t'], c['base'])
    L = len(Q)-1
    d = np.array(c['d'])
    f = c['u']**np.arange(1, L+2)[:, None]
    Qu, du = Q/f, d*c['u']
    b = [Qu.copy(), du.copy()]
    got = np.asarray(ctx.call(METHODS[method], Qu, du))*f
    unchanged(ctx, b, [Qu, du], 'translate_Qlmb')
    nz = np.count_nonzero(d)
    ctx.nt(L >= 1 and nz > 0)
    ctx.label('zero' if nz == 0 else f'{nz}-component')
    if nz == 0:
        ctx.close(got, Q, 1e-13*np.abs(Q).max(), 'zero displacement')
        return
    want, err = expect(Q, d)
    tol = np.repeat((scales(Q, [d])+err)[:, None], 2*L+1, 1)+1e-300
    ctx.close(got, want, tol, f'{method} translate_Qlmb by {c["d"]}, unit {c["u"]}')


def cases(Lmin, Lmax, u=gen.unit()):
    return st.fixed_dictionaries(dict(t=gen.table(Lmin, Lmax), d=disp, base=st.sampled_from([1.0, 0.3, 2.0]), u=u))


@check.clause(cases(0, 4), quick=600, thorough=5000, shards=3, near=('d',))
def cg(c, ctx):
    body(c, ctx, 'cg')


@check.clause(cases(5, 10), quick=120, thorough=1500, shards=4)
def cg_high(c, ctx):
    body(c, ctx, 'cg')


@check.clause(cases(0, 12), quick=2000, thorough=20000, shards=3, near=('d',))
def recurs(c, ctx):
    body(c, ctx, 'recurs')


@check.clause(st.fixed_dictionaries(dict(p=gen.shell_points(1, 4, 4.0, 9.0), d=gen.vec(0.5))), quick=300, thorough=3000)
def distant_sources(c, ctx):
    """Low moments of displaced distant sources, with the truncation bound."""
    P, d = arr(c['p']), np.array(c['d'])
    L = 12
    Q = ref.outer(L, P)
    got = np.asarray(ctx.call(METHODS['recurs'], Q, d))
    want = ref.outer(L, ref.move(P, None, d))
    D = np.linalg.norm(d)
    r = np.sqrt((P[:, 1:]**2).sum(1))
    ctx.nt(D > 0)
    for l in range(4):
        tail = sum(np.sum(np.abs(P[:, 0])/r**(k+1))*D**(k-l)*math.comb(2*k, k-l) for k in range(L+1, L+30))
        ctx.close(got[l], want[l], 1e-11*np.sum(np.abs(P[:, 0])/r**(l+1))+tail+scales(Q, [d])[l],
                  f'displaced distant sources, degree {l}')


@check.clause(st.fixed_dictionaries(dict(t=gen.table(0, 4), ds=st.lists(disp, min_size=2, max_size=3),
                                         ms=st.lists(st.booleans(), min_size=3, max_size=3))),
              quick=200, thorough=2000, shards=2)
def histories(c, ctx):
    Q = mk_table(c['t'])
    L = len(Q)-1
    cur = Q.copy()
    tot = np.zeros(3)
    for k, d in enumerate(c['ds']):
        b = cur.copy()
        nxt = ctx.call(METHODS['cg' if c['ms'][k] else 'recurs'], cur, np.array(d))
        unchanged(ctx, [b], [cur], 'translate_Qlmb')
        cur = np.asarray(nxt)
        tot = tot+d
    ctx.nt(L >= 1 and sum(1 for d in c['ds'] if any(d)) >= 2)
    if np.linalg.norm(tot) < 1e-12:
        want, err = Q, np.zeros(L+1)
    else:
        want, err = expect(Q, tot)
    tol = np.repeat((10*scales(Q, c['ds'])+err)[:, None], 2*L+1, 1)+1e-300
    ctx.close(cur, want, tol, 'composition of translations')


@check.clause(cases(13, 20, st.sampled_from([1.0, 1.0, 0.0254, 1e-3, 1e3])), quick=120, thorough=1500)
def recurs_high(c, ctx):
    body(c, ctx, 'recurs')

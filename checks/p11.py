from common import *
import newt.translations as trs
import newt.translationRecurs as trr

check = Check('P11', 'Arbitrary conjugate-symmetric inner-moment tables (degree 0-20 recursive, 0-8 Clebsch-Gordan) '
              'placed at generic/axial displacements of either sign; also displaced bodies with a truncation bound.  '
              'Non-trivial: degree >= 1 and a displacement off the +z axis.')

disp = st.tuples(gen.direction(), gen.fl(0.3, 8.0)).map(lambda t: [t[1]*x for x in t[0]])
METHODS = {'cg': trs.translate_q2Q, 'recurs': trr.translate_q2Q}


def scales(q, d):
    L = len(q)-1
    D = np.linalg.norm(d)
    a = table_abs(q)
    dth = pole_err(d)[0]
    return np.array([sum(a[k]*math.comb(2*(l+k), l+k)/D**(l+k+1)*(1e-11*(1+l+k)+dth*(1+k+l)**2)
                         for k in range(L+1)) for l in range(L+1)])


def expect(q, d):
    L = len(q)-1
    D = np.linalg.norm(d)
    s, n = (6.0, 16) if L <= 8 else (2.0, L+28)
    rho = D/s
    Q, fmax = project_outer(L, lambda x: ref.inner_field(q, x-np.asarray(d)), rho, n)
    err = np.array([1e-13*fmax*(2*l+1)/rho**l for l in range(L+1)])
    # aliasing of the highest degrees
    a = table_abs(q)
    for l in range(L+1):
        k = 2*n-l
        err[l] += (2*l+1)*sum(a[j]*math.comb(k+j, j)*2**j/D**(j+1) for j in range(L+1))/D**l*s**(l-k)*100
    return Q, err


def body(c, ctx, method):
    D = np.linalg.norm(c['d'])
    q = mk_table(c['t'], c['base']*D)
    L = len(q)-1
    d = np.array(c['d'])
    f = c['u']**np.arange(1, L+2)[:, None]
    qu, du = q*f/c['u'], d*c['u']
    b = [qu.copy(), du.copy()]
    got = np.asarray(ctx.call(METHODS[method], qu, du))*f
    unchanged(ctx, b, [qu, du], 'translate_q2Q')
    ctx.nt(L >= 1 and (abs(d[0])+abs(d[1]) > 1e-6 or d[2] < 0))
    ctx.label('+z' if abs(d[0])+abs(d[1]) == 0 and d[2] > 0 else ('-z' if abs(d[0])+abs(d[1]) == 0 else 'other'))
    want, err = expect(q, d)
    tol = np.repeat((scales(q, d)+err)[:, None], 2*L+1, 1)+1e-300
    ctx.close(got, want, tol, f'{method} translate_q2Q by {c["d"]}, unit {c["u"]}')


def cases(Lmin, Lmax, u=gen.unit()):
    return st.fixed_dictionaries(dict(t=gen.table(Lmin, Lmax), d=disp, base=st.sampled_from([1.0, 0.3, 0.1]), u=u))


@check.clause(cases(0, 4), quick=500, thorough=4000, shards=4, near=('d',))
def cg(c, ctx):
    body(c, ctx, 'cg')


@check.clause(cases(5, 8), quick=48, thorough=600, shards=4)
def cg_high(c, ctx):
    body(c, ctx, 'cg')


@check.clause(cases(0, 8), quick=2000, thorough=15000, shards=4, near=('d',))
def recurs(c, ctx):
    body(c, ctx, 'recurs')


@check.clause(st.fixed_dictionaries(dict(p=gen.points(1, 4, r=0.4), d=disp.map(lambda v: [3*x for x in v]), cg=st.booleans())),
              quick=300, thorough=2000, shards=2)
def displaced_bodies(c, ctx):
    P, d = arr(c['p']), np.array(c['d'])
    D = np.linalg.norm(d)
    P[:, 1:] *= D/4
    L = 4 if c['cg'] else 14
    q = ref.inner(L, P)
    got = np.asarray(ctx.call(METHODS['cg' if c['cg'] else 'recurs'], q, d))
    want = ref.outer(L, ref.move(P, None, d))
    r = np.sqrt((P[:, 1:]**2).sum(1))/D
    ctx.nt(np.abs(P[:, 1:]).max() > 0)
    sc = scales(q, d)
    for l in range(3):
        tail = sum(np.sum(np.abs(P[:, 0])*r**k)*math.comb(k+l, l)*2**l for k in range(L+1, L+60))/D**(l+1)
        ctx.close(got[l], want[l], tail+sc[l]+1e-11*np.sum(np.abs(P[:, 0]))/D**(l+1), f'displaced body, degree {l}')


@check.clause(cases(9, 20, st.sampled_from([1.0, 1.0, 0.0254, 1e-3, 1e3])), quick=150, thorough=1500)
def recurs_high(c, ctx):
    body(c, ctx, 'recurs')

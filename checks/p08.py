from common import *
import newt.rotations as rot

check = Check('P08', 'Degrees 0-40 (recursion) / 0-14 (explicit), Euler angles of any sign/size; oracle: spectral '
              'exponential of J_y.  Non-trivial: degree >= 1 and beta not a multiple of pi.')

_EIG = {}


def dref(l, beta):
    """d^l_{m'm}(beta) = <m'|exp(-i beta J_y)|m> from the eigenbasis of J_y."""
    if l not in _EIG:
        m = np.arange(-l, l+1)
        jp = np.zeros((2*l+1, 2*l+1))
        for i in range(2*l):
            jp[i+1, i] = math.sqrt(l*(l+1)-m[i]*(m[i]+1))
        jy = (jp-jp.T)/(2j)
        w, U = np.linalg.eigh(jy)
        _EIG[l] = (np.round(w), U)
    w, U = _EIG[l]
    return ((U*np.exp(-1j*beta*w)) @ U.conj().T).real


def Dref(l, a, b, g):
    m = np.arange(-l, l+1)
    return np.exp(-1j*a*m)[:, None]*dref(l, b)*np.exp(-1j*g*m)[None, :]


ang = st.one_of(gen.angle(), gen.angle(), gen.fl(-100, 100))
eul = st.lists(ang, min_size=3, max_size=3)
deg = gen.degree((24, 0, 10), (3, 0, 40), (1, 41, 80))


@check.clause(st.fixed_dictionaries(dict(L=deg, e=eul)), quick=1400, thorough=15000, shards=4, near=('e',))
def recursion(c, ctx):
    L, (a, b, g) = c['L'], c['e']
    ctx.nt(L >= 1 and abs(math.sin(b)) > 1e-3)
    ctx.label('beta<0' if b < 0 else ('beta>pi' if b > math.pi else 'beta in [0,pi]'))
    for name, ds, an in (('wignerDl', ctx.call(rot.wignerDl, L, a, b, g), (a, b, g)),
                         ('dlmn', ctx.call(rot.dlmn, L, b), (0, b, 0))):
        ctx.check(len(ds) == L+1, f'{name}: {len(ds)} matrices for maximum degree {L}')
        for l in range(L+1):
            tol = (1e-11+2e-14*(abs(a)+abs(b)+abs(g))+tilt_err(b)*(1+l))*(1+l)
            ctx.close(ds[l], Dref(l, *an), tol, f'{name} degree {l} of {L} at {an}')
        l = L
        ctx.close(np.conj(ds[l]).T @ ds[l], np.eye(2*l+1), (1e-10+4*tilt_err(b)*(1+l))*(1+l), f'{name} unitary')


@check.clause(st.fixed_dictionaries(dict(l=st.integers(0, 12), e=eul, f=gen.fl(-1, 1), g=gen.fl(-1, 1))),
              quick=800, thorough=6000, shards=4, near=('e',))
def explicit(c, ctx):
    l, (a, b, g) = c['l'], c['e']
    tol = (1e-12*2.3**l+2e-14*(abs(a)+abs(b)+abs(g)))*(1+l)
    ctx.nt(l >= 1 and abs(math.sin(b)) > 1e-3)
    want = Dref(l, a, b, g)
    if l <= 8:
        ctx.close(ctx.call(rot.Dl, l, a, b, g), want, tol, f'Dl({l},{a},{b},{g})')
    n, m = int(round(c['f']*l)), int(round(c['g']*l))
    ctx.close(ctx.call(rot.Dlmn, l, m, n, a, b, g), want[l+n, l+m], tol, f'Dlmn({l},{m},{n},...)')

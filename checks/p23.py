from solidkit import *
import contextlib
import io
import numkit
import newt.qlm as qlm
import newt.qlmACH as qa
import newt.qlmNum as qn
import newt.bigQlm as bq
import newt.bigQlmNum as bn

check = Check('P23', 'A physical argument tuple of a random routine; then one argument (or one documented relation between two) is '
              'pushed out of its documented range, close to and far from the boundary.  Non-trivial: every mutated tuple, and every '
              'physical tuple within 1% of a boundary or with degree >= 2.')

PI = math.pi
P = size()


def sph(lo, hi):
    return gen.fl(lo, hi)


# kind of each argument -> (strategy of physical values, list of strategies of unphysical ones)
far = st.one_of(gen.fl(0.001, 3), st.sampled_from([1e-9, 1e-3, 1.0, 100.0]))
NEG = far.map(lambda v: -v)
ZERO = st.just(0.0)
A = {
    'len': (P, [NEG, ZERO]),                       # strictly positive length
    'len0': (P, [NEG]),                            # radius/width that may vanish
    'any': (gen.fl(-3, 3), []),
    'wedge': (st.one_of(gen.fl(0.02, PI), st.just(PI)), [NEG, ZERO, far.map(lambda v: PI+v)]),
    'half': (gen.fl(0.02, 1.5), [NEG, far.map(lambda v: PI/2+v)]),
    'half_open': (gen.fl(0.02, 1.5), [NEG, ZERO, far.map(lambda v: PI/2+v), st.just(PI/2)]),
    'tilt': (gen.fl(-1.4, 1.4), [far.map(lambda v: PI/2+v), far.map(lambda v: -PI/2-v), st.just(PI/2), st.just(-PI/2)]),
    'sides': (st.integers(3, 9), [st.integers(-3, 2)]),
    'nonzero': (signed(P), [ZERO]),
    'offset': (signed(P), []),
}
# relations: (description, function(args) -> args broken, None if not applicable)


def rel_gt(i, j):
    """args[i] < args[j] required: make args[i] larger."""
    def f(a, v):
        a = list(a)
        a[i] = a[j]+v
        return a
    return f


def rel_eq(i, j):
    def f(a, v):
        a = list(a)
        a[i] = a[j]
        return a
    return f


def setto(**kw):
    def f(a, v):
        a = list(a)
        for k, x in kw.items():
            a[int(k[1:])] = x
        return a
    return f


def order(i, j):
    """physical tuples: args[i] = fraction of args[j]."""
    def f(a, u):
        a[i] = a[j]*(0.05+0.9*u)
    return f


def stack(i, j):
    """physical tuples: args[j] = args[i] + positive."""
    def f(a, u):
        a[j] = a[i]+0.05+u
    return f


LM = ('L', 'k')
R = {
    'qlm.sphere': (qlm.sphere, ['len'], [], []),
    'qlm.cylinder': (qlm.cylinder, ['len', 'len'], [], []),
    'qlm.annulus': (qlm.annulus, ['len', 'len0', 'len', 'any', 'wedge'], [order(1, 2)], [rel_gt(1, 2), rel_eq(1, 2)]),
    'qlm.cone': (qlm.cone, ['len', 'len', 'any', 'wedge'], [], []),
    'qlm.tri_iso_prism': (qlm.tri_iso_prism, ['len', 'len', 'nonzero', 'any'], [], []),
    'qlm.tri_iso_prism2': (qlm.tri_iso_prism2, ['len', 'len', 'any', 'half'], [], [setto(a3=0.0)]),
    'qlm.tri_prism': (qlm.tri_prism, ['len', 'nonzero', 'any', 'any'], [stack(2, 3)], [rel_eq(2, 3)]),
    'qlm.rect_prism': (qlm.rect_prism, ['len', 'len', 'len', 'any'], [], []),
    'qlm.ngon_prism': (qlm.ngon_prism, ['len', 'len', 'any', 'sides'], [], []),
    'qlm.tetrahedron': (qlm.tetrahedron, ['len', 'len', 'len'], [], []),
    'qlm.tetrahedron2': (qlm.tetrahedron2, ['len', 'any', 'any', 'len'], [stack(1, 2)], [rel_eq(1, 2)]),
    'qlm.pyramid': (qlm.pyramid, ['len', 'len', 'len'], [], []),
    'qlmACH.rect_prism': (qa.rect_prism, ['len', 'len', 'len'], [], []),
    'qlmACH.annulus': (qa.annulus, ['len', 'len0', 'len', 'any', 'wedge'], [order(1, 2)], [rel_gt(1, 2), rel_eq(1, 2)]),
    'qlmACH.cone': (qa.cone, ['len', 'len0', 'len0'], [], [setto(a1=0.0, a2=0.0)]),
    'qlmACH.cone2': (qa.cone2, ['len', 'len0', 'len0'], [], [setto(a1=0.0, a2=0.0)]),
    'qlmACH.tri_prism': (qa.tri_prism, ['len', 'nonzero', 'any', 'any'], [stack(2, 3)], [rel_eq(2, 3)]),
    'qlmACH.trapezoid': (qa.trapezoid, ['len', 'len0', 'len0', 'len'], [], [setto(a1=0.0, a2=0.0)]),
    'qlmACH.cylindrical_section': (qa.cylindrical_section, ['len', 'len', 'len'], [order(2, 1)], [rel_gt(2, 1)]),
    'qlmACH.tetrahedron': (qa.tetrahedron, ['len', 'len', 'len'], [], []),
    'qlmACH.cylhole': (qa.cylhole, ['len', 'len'], [order(0, 1)], [rel_gt(0, 1)]),
    'qlmACH.cylhole2': (qa.cylhole2, ['len', 'len'], [order(0, 1)], [rel_gt(0, 1)]),
    'qlmACH.platehole': (qa.platehole, ['len', 'len', 'tilt'], [], []),
    'qlmACH.pyramid': (qa.pyramid, ['len', 'len', 'len'], [], []),
    'qlmNum.cyl_mom': (qn.cyl_mom, ['wedge', 'len0', 'len', 'any', 'any'], [order(1, 2), stack(3, 4)], [rel_gt(1, 2), rel_gt(3, 4)]),
    'qlmNum.cone_mom': (qn.cone_mom, ['wedge', 'len0', 'len', 'len'], [order(1, 2)], [rel_gt(1, 2)]),
    'qlmNum.trap_mom': (qn.trap_mom, ['half_open', 'len0', 'len', 'any', 'any'], [order(1, 2), stack(3, 4)], [rel_gt(1, 2), rel_gt(3, 4)]),
    'qlmNum.steinmetz': (qn.steinmetz, ['len', 'len'], [order(0, 1)], [rel_gt(0, 1)]),
    'qlmNum.platehole': (qn.platehole, ['len', 'len', 'tilt'], [], []),
    'bigQlm.sphere': (bq.sphere, ['len', 'offset', 'any', 'any'], [], [setto(a1=0.0, a2=0.0, a3=0.0)]),
    'bigQlm.annulus': (bq.annulus, ['nonzero', 'len', 'len', 'any', 'wedge'], [order(1, 2)], [rel_gt(1, 2)]),
    'bigQlmNum.annulus': (bn.annulus, ['any', 'any', 'len0', 'len', 'wedge'], [order(2, 3), stack(0, 1)],
                          [rel_gt(2, 3), rel_gt(0, 1), setto(a0=-0.5, a1=0.5, a2=0.0), setto(a0=0.0, a1=0.5, a2=0.0),
                           setto(a0=-0.5, a1=0.0, a2=0.0)]),
    'bigQlmNum.outer_cone': (bn.outer_cone, ['len', 'len', 'len', 'wedge'], [order(1, 2)], [rel_gt(1, 2)]),
    'bigQlmNum.trapezoid': (bn.trapezoid, ['any', 'any', 'len0', 'len', 'half_open'], [order(2, 3), stack(0, 1)],
                            [rel_gt(2, 3), rel_gt(0, 1), setto(a0=-0.5, a1=0.5, a2=0.0)]),
}
NAMES = sorted(R)


@st.composite
def physical(draw, names=NAMES):
    n = draw(st.sampled_from(names))
    fn, kinds, fixes, rels = R[n]
    a = [draw(A[k][0]) for k in kinds]
    for f in fixes:
        f(a, draw(gen.fl(0, 1)))
    return dict(r=n, L=draw(st.sampled_from([0, 1, 2, 3, 5])), k=draw(gen.pos(0.1, 3)), a=a)


@st.composite
def unphysical(draw):
    c = draw(physical())
    fn, kinds, fixes, rels = R[c['r']]
    bad = [(i, s) for i, k in enumerate(kinds) for s in A[k][1]]
    k = draw(st.integers(0, len(bad)+len(rels)-1))
    a = list(c['a'])
    if k < len(bad):
        i, s = bad[k]
        a[i] = draw(s)
        c['what'] = f'argument {i+1} after the mass = {a[i]}'
    else:
        v = draw(far)
        a = rels[k-len(bad)](a, v)
        c['what'] = f'relation {k-len(bad)+1} violated'
    c['a'] = a
    return c


def run(fn, *a):
    with numkit.fast(8), contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


@check.clause(unphysical(), quick=12000, thorough=200000, shards=6)
def rejects(c, ctx):
    fn = R[c['r']][0]
    ctx.nt()
    ctx.label(c['r'])
    try:
        got = run(fn, c['L'], c['k'], *c['a'])
    except ValueError:
        return
    except Exception as e:
        ctx.fail(f"{c['r']}{tuple(c['a'])} ({c['what']}): raised {type(e).__name__} ({e}) instead of ValueError")
        return
    ctx.fail(f"{c['r']}{tuple(c['a'])} ({c['what']}): no ValueError; returned q00 = {np.asarray(got).flat[c['L']]}")




@check.clause(physical(), quick=5000, thorough=80000, shards=6)
def accepts(c, ctx):
    fn = R[c['r']][0]
    ctx.nt(c['L'] >= 2)
    ctx.label(c['r'])
    got = np.asarray(ctx.call(run, fn, c['L'], c['k'], *c['a']))
    L = c['L']
    ctx.check(got.shape == (L+1, 2*L+1), lambda: f"{c['r']}{tuple(c['a'])}: shape {got.shape}")
    ctx.check(np.isfinite(got).all(), lambda: f"{c['r']}{tuple(c['a'])}: non-finite moments")
    ctx.check(np.abs(got).max() > 0, lambda: f"{c['r']}{tuple(c['a'])}: all moments zero")

from common import *
import newt.multipoleLib as mplb

check = Check('P15', 'Arbitrary complex tables of degree 0-12 embedded in degree 0-16; oracle: index-wise model.  '
              'Non-trivial: the two degrees differ and the table has non-zero orders.')


deg = gen.degree((9, 0, 16), (1, 0, 45))


def model(q, Ln):
    Lo = len(q)-1
    out = np.zeros((Ln+1, 2*Ln+1), complex)
    for l in range(min(Lo, Ln)+1):
        for m in range(-l, l+1):
            out[l, Ln+m] = q[l, Lo+m]
    return out


@check.clause(st.fixed_dictionaries(dict(t=gen.pick((6, gen.table(0, 12)), (1, gen.table(13, 40))), n=deg, n2=deg, base=st.sampled_from([1.0, 1.0, 1e-3, 1e-6, 1e-9, 1e5]))), quick=2000, thorough=60000)
def embed(c, ctx):
    q = mk_table(c['t'], c['base'])
    L = len(q)-1
    b = q.copy()
    e = ctx.call(mplb.embed_qlm, q, c['n'])
    ctx.nt(c['n'] != L and L >= 1 and np.abs(q[1:]).max() > 0)
    ctx.label('up' if c['n'] > L else ('down' if c['n'] < L else 'same'))
    ctx.close(e, model(q, c['n']), 0, f'embedding degree {L} in {c["n"]}')
    unchanged(ctx, [b], [q], 'embed_qlm')
    e2 = ctx.call(mplb.embed_qlm, np.asarray(e), c['n2'])
    ctx.close(e2, model(model(q, c['n']), c['n2']), 0, f'{L} -> {c["n"]} -> {c["n2"]}')
    if c['n'] >= L:
        ctx.close(ctx.call(mplb.embed_qlm, np.asarray(e), L), q, 0, 'embedding up and back down')
    e = np.asarray(e)
    if e.flags.writeable:
        e += 1
        ctx.check(np.array_equal(q, b), 'changing the embedded table changed the original')

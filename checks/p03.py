from common import *
import newt.glib as glb

check = Check('P03', 'Histories of 1-8 translations/rotations of generated point arrays (row or matrix form); '
              'non-trivial: at least one rotation by a non-multiple of 2 pi about an axis not through all points.')

axis = st.one_of(
    st.tuples(gen.direction(), st.sampled_from([1.0, 1.0, 2.5, 1e-3, 1e3, 0.3, 0.9, 1.1, 0.995, 1.003, 1.0001, 0.99999, 1e-6, 1e7, 1e-9, 1e-12, 1e-20, 1e12])).map(
        lambda t: [t[1]*x for x in t[0]]),
    st.lists(st.integers(-3, 3), min_size=3, max_size=3).map(
        lambda v: [float(x) for x in (v if any(v) else [0, 0, 1])]))
ang = st.one_of(gen.angle(), gen.angle(), gen.fl(-1000, 1000), st.sampled_from([1e-6, -1e-4, 1e-3]))
op = st.one_of(st.tuples(st.just('r'), ang, axis).map(list),
               st.tuples(st.just('t'), gen.vec(5.0)).map(list))


@check.clause(st.fixed_dictionaries(dict(
    p=st.one_of(gen.points(1, 6), st.tuples(st.one_of(st.integers(7, 40), st.integers(7, 3000)), st.integers(0, 9999)).map(
        lambda t: bulk(t[0], t[1], 3, True).tolist())),
    ops=st.lists(op, min_size=1, max_size=8),
    row=st.booleans(), kind=st.integers(0, 3))), quick=4000, thorough=50000, shards=2)
def histories(c, ctx):
    P = arr(c['p'])
    row = c['row'] and len(P) == 1
    cur = P[0].copy() if row else P.copy()
    model = P.copy()
    size = np.abs(P[:, 1:]).max() if len(P) else 0
    for o in c['ops']:
        before = cur.copy()
        if o[0] == 't':
            v = o[1] if c['kind'] == 0 else np.array(o[1])
            new = ctx.call(glb.translate_point_array, cur, v)
            model = ref.move(model, None, o[1])
        else:
            v = np.array(o[2])
            vb = v.copy()
            new = ctx.call(glb.rotate_point_array, cur, o[1], v if c['kind'] != 1 else list(o[2]))
            ctx.check(np.array_equal(v, vb), 'rotation axis was modified')
            model = ref.move(model, ref.rotm(o[1], o[2]))
            if abs(math.sin(o[1])) > 1e-3 and np.abs(np.cross(before.reshape(-1, 4)[:, 1:], o[2])).max() > 1e-3:
                ctx.nt()
        ctx.check(np.array_equal(before, cur), 'the input array was modified')
        ctx.check(new is not cur and not np.shares_memory(np.asarray(new), cur),
                  'the result shares memory with the input')
        size = max(size, np.abs(model[:, 1:]).max())
        ctx.close(new, model[0] if row else model, 1e-12*len(c['ops'])*(1+size)+1e-13*size*1000,
                  f'after {o[0]}')
        ctx.check(np.array_equal(np.asarray(new).reshape(-1, 4)[:, 0], P[:, 0]), 'masses changed')
        cur = new
    ctx.label('row' if row else 'matrix', f'ops{len(c["ops"])}')


@check.clause(st.fixed_dictionaries(dict(p=gen.points(2, 5), a=ang, b=ang, k=axis)), quick=1000, thorough=10000)
def group_laws(c, ctx):
    P = arr(c['p'])
    k = np.array(c['k'])
    size = 1+np.abs(P[:, 1:]).max()
    tol = 1e-12*size*(1+abs(c['a'])+abs(c['b']))
    R = lambda p, t, ax=k: ctx.call(glb.rotate_point_array, p, t, ax)
    one = R(R(P, c['a']), c['b'])
    ctx.nt(abs(math.sin(c['a'])) > 1e-3 and abs(math.sin(c['b'])) > 1e-3)
    ctx.close(one, R(P, c['a']+c['b']), tol, 'rotations about one axis add')
    ctx.close(R(R(P, c['a']), -c['a']), P, tol, 'inverse rotation')
    ctx.close(R(R(P, c['a']), c['a'], -k), P, tol, 'reversed axis inverts')
    d = lambda p: np.sqrt(((p[:, None, 1:]-p[None, :, 1:])**2).sum(-1))
    ctx.close(d(np.asarray(one)), d(P), tol, 'distances preserved')
    ctx.close((np.asarray(one)[:, 1:] @ k)/np.linalg.norm(k), (P[:, 1:] @ k)/np.linalg.norm(k), tol,
              'component along the axis preserved')


@check.clause(st.fixed_dictionaries(dict(
    p=st.lists(st.tuples(st.integers(-4, 4), st.integers(-9, 9), st.integers(-9, 9), st.integers(-9, 9)).map(list),
               min_size=1, max_size=4), a=ang, k=axis, t=gen.vec(3.0))), quick=600, thorough=5000)
def integer_arrays(c, ctx):
    P = np.array(c['p'])
    F = P.astype(float)
    ctx.nt(abs(math.sin(c['a'])) > 1e-3)
    ctx.close(ctx.call(glb.rotate_point_array, P, c['a'], np.array(c['k'])),
              ref.move(F, ref.rotm(c['a'], c['k'])), 1e-11, 'rotation of an integer array')
    ctx.close(ctx.call(glb.translate_point_array, P, np.array(c['t'])), ref.move(F, None, c['t']), 1e-12,
              'translation of an integer array')
    ctx.close(ctx.call(glb.rotate_point_array, P[0], c['a'], np.array(c['k'])),
              ref.move(F[:1], ref.rotm(c['a'], c['k']))[0], 1e-11, 'rotation of an integer row')

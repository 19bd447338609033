from common import *
import octave
import newt.glib as glb

check = Check('P32', 'Point arrays (1-40 points), axes of any length and direction, angles in [-10, 10] with the special ones, '
              'vectors; histories of 1-4 motions.  Oracle: matrix exponential rotation in the left-handed sense the routine documents '
              '(counter-clockwise as viewed from the origin), which is the Python rotation by the opposite angle.  Non-trivial: a point off '
              'the axis and an angle that is not a multiple of a full turn.')
axis = gen.vec(3.0).map(lambda v: v if sum(x*x for x in v) > 1e-4 else [0.0, 0.0, 1.0])
def unit_ish(t):
    n = math.sqrt(sum(x*x for x in t[0]))
    return [x/n*t[1] for x in t[0]]


scaled = gen.pick((3, st.tuples(axis, st.sampled_from([1.0, 1e-4, 1e4])).map(lambda t: [x*t[1] for x in t[0]])),
                  (1, st.tuples(axis, st.sampled_from([1.0, 1+1e-8, 1-1e-6, 1+1e-5, 1.0003, 0.998, 1.01])).map(unit_ish)))


@st.composite
def cloud(draw):
    if draw(st.integers(0, 4)) == 0:
        return bulk(draw(st.integers(7, 40)), draw(st.integers(0, 10**6)), 3, draw(st.booleans())).tolist()
    return draw(gen.points(1, 6))


@check.clause(st.fixed_dictionaries(dict(p=cloud(), a=gen.angle(), v=scaled)), quick=2000, thorough=40000, shards=6)
def rotation(c, ctx):
    P, a, v = arr(c['p']), c['a'], np.array(c['v'])
    R = ref.rotm(-a, v)
    want = ref.move(P, R)
    got = ctx.call(octave.call, 'rotatePMArray', P, a, v)
    u = v/np.linalg.norm(v)
    off = np.linalg.norm(np.cross(P[:, 1:], u), axis=1).max()
    ctx.nt(off > 1e-6 and abs(math.sin(a/2)) > 1e-9)
    ctx.label('tiny or huge axis' if not 1e-3 < np.linalg.norm(v) < 1e3 else 'ordinary axis')
    r = 1+np.abs(P[:, 1:]).max()
    tol = np.repeat([[0, 1e-13*r, 1e-13*r, 1e-13*r]], len(P), 0)
    ctx.close(got, want, tol*5, f'MATLAB rotatePMArray by {a} about {c["v"]}')
    py = glb.rotate_point_array(P, -a, v)
    ctx.close(got, np.atleast_2d(py), tol*10, 'MATLAB rotation against the Python rotation by the opposite angle')


@check.clause(st.fixed_dictionaries(dict(p=cloud(), v=st.one_of(gen.vec(5.0), gen.vec(1e3)))), quick=1200, thorough=20000, shards=4)
def translation(c, ctx):
    P, v = arr(c['p']), np.array(c['v'])
    got = ctx.call(octave.call, 'translatePMArray', P, v)
    ctx.nt(any(c['v']))
    want = ref.move(P, None, v)
    ctx.close(got, want, np.repeat([[0.0]+[1e-15*(4+np.abs(v).max())]*3], len(P), 0), f'MATLAB translatePMArray by {c["v"]}')


@check.clause(st.fixed_dictionaries(dict(p=cloud(), ops=st.lists(st.one_of(
    st.tuples(st.just('t'), gen.vec(3.0)).map(list), st.tuples(st.just('r'), gen.angle(), scaled).map(list)), min_size=1, max_size=4))),
    quick=800, thorough=10000, shards=4)
def histories(c, ctx):
    P = arr(c['p'])
    W, G_ = P.copy(), P.copy()
    for o in c['ops']:
        if o[0] == 't':
            W = ref.move(W, None, o[1])
            G_ = ctx.call(octave.call, 'translatePMArray', G_, np.array(o[1]))
        else:
            W = ref.move(W, ref.rotm(-o[1], o[2]))
            G_ = ctx.call(octave.call, 'rotatePMArray', G_, o[1], np.array(o[2]))
    ctx.nt(len(c['ops']) > 1)
    tol = np.repeat([[0.0]+[1e-12*(1+np.abs(W[:, 1:]).max()+np.abs(P[:, 1:]).max()+4*3)]*3], len(P), 0)
    ctx.close(G_, W, tol, f'MATLAB motions {c["ops"]}')
    i, j = np.triu_indices(len(P), 1)
    d = lambda Q: np.linalg.norm(Q[i, 1:]-Q[j, 1:], axis=1)
    ctx.close(d(G_), d(P), 1e-11, 'mutual distances')

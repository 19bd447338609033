from common import *
import octave
import newt.pg2Multi as pgm
from p04 import cloud, offaxis

check = Check('P33', 'Point arrays of 1-12 points, generic, on the axes, in the planes x=0 and z=0 and at the origin; degrees 0-12, orders '
              '0..l; angles in [0, pi] x [-7, 7].  Oracle: solid harmonics by recurrence and the Python moments.  Non-trivial: degree >= 1 and a '
              'point off the z-axis.')
coord = st.one_of(gen.fl(-3, 3), st.sampled_from([0.0, 0.0, 1.0, -1.0]))
mixed = st.lists(st.tuples(gen.mass(), coord, coord, coord).map(list), min_size=1, max_size=5)
close = st.lists(st.tuples(gen.mass(), gen.near_axis()).map(lambda t: [t[0], *t[1]]), min_size=1, max_size=3)
pts = gen.pick((3, mixed), (2, close), (3, cloud().map(lambda p: p[:12])))


@check.clause(st.fixed_dictionaries(dict(l=st.integers(0, 12), f=gen.fl(0, 1), th=st.one_of(gen.fl(0, math.pi), st.sampled_from([0.0, math.pi/2, math.pi])),
                                         ph=gen.angle(-7, 7))), quick=2000, thorough=40000, shards=4)
def harmonic(c, ctx):
    l, th, ph = c['l'], c['th'], c['ph']
    m = int(round(c['f']*l))
    ctx.nt(l >= 1 and 0 < th < math.pi)
    near = 8*EPS/max(abs(math.sin(th)), 3e-8)      # the routine works from cos(theta)
    want = ref.solid(l, [[math.sin(th)*math.cos(ph), math.sin(th)*math.sin(ph), math.cos(th)]])[l, l+m, 0]
    ctx.close(ctx.call(octave.call, 'YLM', l, m, th, ph), [[want]], (1e-12+near)*(1+l)**2, f'MATLAB YLM({l},{m},{th},{ph})')


@check.clause(st.fixed_dictionaries(dict(p=pts, l=st.integers(0, 12), f=gen.fl(0, 1))), quick=2400, thorough=40000, shards=6)
def moment(c, ctx):
    P, l = arr(c['p']), c['l']
    m = int(round(c['f']*l))
    ctx.nt(l >= 1 and offaxis(c['p']))
    tol = inner_tol(l, P)[l, 0]+1e-300
    want = ref.inner(l, P)[l, l+m]
    got = ctx.call(octave.call, 'computeMoments', l, m, P)
    ctx.close(got, [[want]], tol*3, f'MATLAB computeMoments({l},{m})')
    ctx.close(got, [[pgm.qmoment(l, m, P)]], tol*5, f'MATLAB computeMoments({l},{m}) against Python')


@check.clause(st.fixed_dictionaries(dict(p=pts, L=gen.pick((5, st.integers(1, 5)), (1, st.integers(6, 12))))), quick=400, thorough=5000, shards=6)
def summary(c, ctx):
    P, L = arr(c['p']), c['L']
    ctx.nt(offaxis(c['p']))
    q, tol = ref.inner(L, P), inner_tol(L, P)+1e-300
    out = ctx.call(octave.call, 'computeMomentSummary', L, P)
    ctx.check(out.shape[1] == 3, lambda: f'summary of shape {out.shape}')
    seen = [(int(round(r[0].real)), int(round(r[1].real))) for r in out]
    ctx.check(len(set(seen)) == len(seen), 'a moment is listed twice')
    ctx.check({(l, m) for l in range(1, L+1) for m in range(l+1)} <= set(seen), lambda: f'MATLAB computeMomentSummary({L}) lists {seen}')
    for (l, m), row in zip(seen, out):
        ctx.check(0 <= m <= l <= L, lambda: f'summary row for ({l},{m})')
        ctx.close(row[2], q[l, L+m], tol[l, 0]*3, f'MATLAB computeMomentSummary({L}) at ({l},{m})')

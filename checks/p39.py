from common import *
import warnings
import octave
import matplotlib
matplotlib.use('Agg')
import newt.glib as glb

check = Check('P39', 'Two arrays of 1-30 point masses of either sign (zero included), with and without sizes by mass; MATLAB plots under Octave '
              'with an invisible figure, random subsets with fractions from 0 to 1.  Oracle: the plotted marks against the arrays.  '
              'Non-trivial: at least two points with masses of both signs, or more than two points in both arrays.')
fd = st.fixed_dictionaries


@st.composite
def cloud(draw):
    if draw(st.integers(0, 3)) == 0:
        return bulk(draw(st.integers(7, 30)), draw(st.integers(0, 9999)), 2, draw(st.booleans())).tolist()
    return draw(gen.points(1, 6))


def rows(a):
    a = np.round(np.asarray(a, float).reshape(-1, 3), 9)
    return a[np.lexsort(a.T[::-1])]


def same_points(ctx, got, want, what):
    got, want = rows(got), rows(want)
    ctx.check(len(got) == len(want), lambda: f'{what}: {len(got)} marks for {len(want)} points')
    if len(want):
        ctx.close(got, want, 1e-8, what)


def nontrivial(c):
    m = [p[0] for p in c['a']+c['b']]
    return (min(m) < 0 < max(m)) or (len(c['a']) > 2 and len(c['b']) > 2)


@check.clause(fd(dict(a=cloud(), b=cloud(), scale=st.booleans(), e=st.booleans())), quick=250, thorough=4000, shards=8)
def python_plot(c, ctx):
    import matplotlib.pyplot as plt
    A, B = arr(c['a']), arr(c['b'])
    before = snapshot(A, B)
    what = f'display_points(scale_mass={c["scale"]})'
    ctx.nt(nontrivial(c))
    ctx.label('sizes by mass' if c['scale'] else 'equal sizes')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = ctx.call(glb.display_points, A, B, True) if c['scale'] else ctx.call(glb.display_points, A, B)
            ctx.check(isinstance(r, tuple) and len(r) == 2, lambda: f'{what}: returned {type(r).__name__}')
            fig, ax = r
            unchanged(ctx, before, [A, B], what)
            ctx.check(any(x is ax for x in fig.axes), lambda: f'{what}: the axes returned are not part of the figure, which is empty')
            got = {}
            for k in ax.collections:
                o = np.column_stack([np.ma.getdata(v) for v in k._offsets3d]).reshape(-1, 3)
                s = np.broadcast_to(np.asarray(k.get_sizes(), float), (len(o),)) if len(o) else np.zeros(0)
                ctx.check(np.isfinite(s).all() and (s > 0).all(), lambda: f'{what}: marks of size {s[~(s > 0)].tolist()} cannot be seen')
                got.setdefault(k.get_label(), []).append((o, s))
            for i, P in (('1', A), ('2', B)):
                sizes = []
                for sg, sel in (('+', P[:, 0] > 0), ('-', P[:, 0] < 0)):
                    name = f'({sg}) mass{i}'
                    o = np.concatenate([x[0] for x in got.get(name, [])]+[np.zeros((0, 3))])
                    s = np.concatenate([x[1] for x in got.get(name, [])]+[np.zeros(0)])
                    same_points(ctx, o, P[sel][:, 1:], f'{what}: marks of {name}')
                    for q, z in zip(o, s):
                        m = np.abs(P[sel][(np.abs(P[sel][:, 1:]-q) < 1e-9).all(1), 0])
                        sizes.append((z, m))
                one = [(z, m[0]) for z, m in sizes if len(m) == 1]
                if len(one) > 1:
                    z, m = np.array(one).T
                    if c['scale']:
                        ctx.close(z/z.sum(), m/m.sum(), 1e-9, f'{what}: sizes in proportion to the masses')
                    else:
                        ctx.close(z, np.full(len(z), z[0]), 1e-9*z[0], f'{what}: equal sizes')
            ctx.check(set(got) <= {'(+) mass1', '(-) mass1', '(+) mass2', '(-) mass2'}, lambda: f'{what}: other marks {sorted(got)}')
    finally:
        plt.close('all')


def lines(fn, A, B, *more):
    """x, y, z, colour and number of the plotted marks, one row each."""
    code = ("set(0,'defaultfigurevisible','off'); clf; rand('twister',%d); " % more[1] if more else "set(0,'defaultfigurevisible','off'); clf; ")
    code += f"{fn}({octave.lit(A)},{octave.lit(B)}{',' + octave.lit(more[0]) if more else ''}); "
    code += ("c_ = get(gca,'children'); v_ = zeros(0,7); for k_ = 1:numel(c_), x_ = get(c_(k_),'xdata'); n_ = numel(x_); if n_ == 0, continue; end; "
             "y_ = get(c_(k_),'ydata'); z_ = get(c_(k_),'zdata'); "
             "v_ = [v_; x_(:), y_(:), z_(:), repmat([get(c_(k_),'color'), k_], n_, 1)]; end; close all")
    return code


@check.clause(fd(dict(a=cloud(), b=cloud(), f=st.sampled_from([None, None, 0.0, 1.0, 0.3, 0.7]), s=st.integers(0, 9999))), quick=200, thorough=3000, shards=6)
def matlab_plot(c, ctx):
    A, B = arr(c['a']), arr(c['b'])
    f = c['f']
    fn = 'displayPoints' if f is None else 'displayPointsRandomSubset'
    ctx.nt(nontrivial(c))
    ctx.label(fn)
    v = np.asarray(ctx.call(octave.value, lines(fn, A, B) if f is None else lines(fn, A, B, f, c['s']), 'v_')).reshape(-1, 7)
    blue = (v[:, 5] > 0.5) & (v[:, 3] < 0.5)
    red = (v[:, 3] > 0.5) & (v[:, 5] < 0.5)
    for name, sel, P in (('test mass (blue)', blue, A), ('field mass (red)', red, B)):
        if f is None or f == 1.0:
            same_points(ctx, v[sel, :3], P[:, 1:], f'{fn}: {name}')
        elif f == 0.0:
            ctx.check(not sel.any(), f'{fn}: {name}: marks with fraction 0')
        else:
            left = [tuple(q) for q in np.round(P[:, 1:], 9)+0.0]
            for q in np.round(v[sel, :3], 9)+0.0:
                ctx.check(tuple(q) in left, lambda: f'{fn}: {name}: a mark at {q.tolist()} which is no point of the array')
                left.remove(tuple(q))


@check.clause(fd(dict(n=st.integers(1000, 4000), f=gen.fl(0.05, 0.95), s=st.integers(0, 9999))), quick=24, thorough=300, shards=6)
def matlab_fraction(c, ctx):
    """The random subset holds about the requested fraction of each array."""
    n, f = c['n'], c['f']
    ctx.nt(True)
    A = np.column_stack([np.ones(n), np.arange(n), np.zeros(n), np.zeros(n)])
    code = lines('displayPointsRandomSubset', A, A[:n//2], f, c['s'])
    v = np.asarray(ctx.call(octave.value, code, 'v_')).reshape(-1, 7)
    for k, name, sel in ((n, 'blue', (v[:, 5] > 0.5) & (v[:, 3] < 0.5)), (n//2, 'red', (v[:, 3] > 0.5) & (v[:, 5] < 0.5))):
        got = int(sel.sum())
        ctx.check(abs(got-k*f) <= 7*math.sqrt(k*f*(1-f))+1, lambda: f'displayPointsRandomSubset: {got} of {k} {name} points at fraction {f}')

from common import *
import octave
import tempfile

check = Check('P36', 'Surface scans: 4-30 scattered or gridded samples, planes plus roughness; grids of 2-6 x 2-6 samples with exact coordinates '
              'resampled at their own spacing or a finer one, planar and rough heights.  Oracle: least squares by QR for the detrending, the '
              'height function itself for the filled volume.  Non-trivial: at least 6 samples not on one line.')
fd = st.fixed_dictionaries


@check.clause(fd(dict(n=st.integers(4, 30), s=st.integers(0, 10**6), pl=st.lists(gen.fl(-5, 5), min_size=3, max_size=3), off=gen.vec(10.0),
                      rough=st.sampled_from([0.0, 0.1, 1.0]), sc=st.sampled_from([1.0, 1.0, 20.0, 0.1]))), quick=600, thorough=10000, shards=4)
def detrend(c, ctx):
    g = np.random.default_rng(c['s'])
    n = c['n']
    xy = g.uniform(-1, 1, (n, 2))*c['sc']+c['off'][:2]
    rough = c['rough']*g.standard_normal(n)
    A = np.column_stack([xy-xy.mean(0)])
    if np.linalg.svd(A, compute_uv=False)[-1] < 0.05*c['sc']*math.sqrt(n):
        return
    ctx.nt(n >= 6)
    out = []
    for a, b, z0 in ([0.0, 0.0, 0.0], c['pl']):
        d = np.column_stack([xy, rough+a*xy[:, 0]+b*xy[:, 1]+z0])
        o = ctx.call(octave.call, 'scanCenterAndRemoveLinear', d)
        out.append(o)
        ctx.check(o.shape == (n, 3), lambda: f'scanCenterAndRemoveLinear: shape {o.shape}')
        D = np.column_stack([A, np.ones(n)])
        res = d[:, 2]-D @ np.linalg.lstsq(D, d[:, 2], rcond=None)[0]
        size = 1e-3*(np.abs(d).max()+1)
        ctx.close(o[:, :2], A*1e-3, 1e-13*size*10, 'scanCenterAndRemoveLinear: centred positions in metres')
        ctx.close(o[:, 2], res*1e-3, 1e-10*size, 'scanCenterAndRemoveLinear: residual heights in metres')
    ctx.close(out[0], out[1], 1e-9*(np.abs(c['pl']).max()*(c['sc']+10)+1)*1e-3, 'scanCenterAndRemoveLinear: an added plane changed the result')


dy = st.integers(-8, 8).map(lambda k: k/4)


@check.clause(fd(dict(nx=st.integers(2, 6), ny=st.integers(2, 6), h=st.sampled_from([0.5, 1.0, 0.25]), k=st.sampled_from([1, 1, 2, 4]), j=st.sampled_from([1, 1, 2]),
                      x0=dy, y0=dy, pl=st.tuples(gen.fl(-0.3, 0.3), gen.fl(-0.3, 0.3)).map(list), z=gen.fl(0.5, 4), zs=gen.fl(0.1, 0.6), rough=st.booleans(),
                      s=st.integers(0, 10**6), rho=gen.pos(0.2, 3.0))), quick=300, thorough=4000, shards=6)
def fill(c, ctx):
    """A gridded scan becomes columns of points filled up to the scanned height."""
    h, k, zs = c['h'], c['k'], c['zs']
    g = np.random.default_rng(c['s'])
    x, y = c['x0']+h*np.arange(c['nx']), c['y0']+h*np.arange(c['ny'])
    X, Y = np.meshgrid(x, y)
    a, b = c['pl']
    Z = c['z']+a*(X-c['x0'])+b*(Y-c['y0'])
    if c['rough']:
        k = j = 1       # only the samples themselves are known
        Z = Z+g.uniform(0, 1, Z.shape)
    else:
        j = c['j']
    dx, dy_ = h/k, h/j
    scan = np.column_stack([X.ravel(), Y.ravel(), Z.ravel()])
    scan = scan[g.permutation(len(scan))]
    P = ctx.call(octave.call, 'scanToPMArray', scan, dx, dy_, zs, c['rho'])
    ctx.nt(len(scan) >= 6)
    ctx.label('rough' if c['rough'] else 'planar', f'{k}x{j} finer')
    nx, ny = (c['nx']-1)*k+1, (c['ny']-1)*j+1
    if c['rough']:
        H = Z
    else:
        xs, ys = np.meshgrid(c['x0']+dx*np.arange(nx), c['y0']+dy_*np.arange(ny))
        H = c['z']+a*(xs-c['x0'])+b*(ys-c['y0'])
    what = f'scanToPMArray of {c["nx"]} x {c["ny"]} samples at {dx}, {dy_}, {zs}'
    if P.size:
        ctx.close(P[:, 0], np.full(len(P), dx*dy_*zs*c['rho']), 1e-12*c['rho'], f'{what}: masses')
    i = np.round(P[:, 1]/dx+(nx-1)/2).astype(int)
    jj = np.round(P[:, 2]/dy_+(ny-1)/2).astype(int)
    ctx.close(P[:, 1], (i-(nx-1)/2)*dx, 1e-11, f'{what}: x positions')
    ctx.close(P[:, 2], (jj-(ny-1)/2)*dy_, 1e-11, f'{what}: y positions')
    ctx.check(len(P) == 0 or (i.min() >= 0 and i.max() < nx and jj.min() >= 0 and jj.max() < ny), lambda: f'{what}: points outside the scan')
    for r in range(ny):
        for q in range(nx):
            zz = np.sort(P[(i == q) & (jj == r), 3])
            e = H[r, q]/zs
            lo, hi = max(0, math.floor(e-1e-9)), max(0, math.floor(e+1e-9))
            ctx.check(lo <= len(zz) <= hi, lambda: f'{what}: column {q},{r} of height {H[r, q]} holds {len(zz)} points')
            ctx.close(zz, (np.arange(len(zz))+.5)*zs, 1e-11*(1+e), f'{what}: heights in column {q},{r}')


@check.clause(fd(dict(n=st.integers(300, 900), g=st.sampled_from([1.0, 0.01, 1e-4, 25.0]), s=st.integers(0, 9999))), quick=40, thorough=600, shards=4)
def scatter(c, ctx):
    """Scattering moves the points in y and z only, by independent normal steps of the scan's grid size (given by the parameter script)."""
    n, h = c['n'], c['g']
    M = bulk(n, c['s'], 2, True)
    with tempfile.TemporaryDirectory() as d:
        with open(d+'/run3147PendulumParameters.m', 'w') as fh:
            fh.write(f'pendulumPMScanGridSize = {h!r};\n')
        o = np.asarray(ctx.call(octave.value, f"addpath('{d}'); rehash; randn('state',{c['s']}); M_ = {octave.lit(M)}; o_ = scatterPMMassesYZGrid(M_); rmpath('{d}'); clear functions",
                                'o_'))
    ctx.nt(True)
    what = 'scatterPMMassesYZGrid'
    ctx.check(o.shape == M.shape, lambda: f'{what}: shape {o.shape}')
    ctx.close(o[:, :2], M[:, :2], 0.0, f'{what}: masses and x')
    e = (o[:, 2:]-M[:, 2:])/h
    t = 7/math.sqrt(n)
    for k, name in enumerate('yz'):
        ctx.check(abs(e[:, k].mean()) < t, lambda: f'{what}: mean step in {name} is {e[:, k].mean():.3f} grid sizes')
        ctx.check(abs(e[:, k].std()-1) < t, lambda: f'{what}: rms step in {name} is {e[:, k].std():.3f} grid sizes')
        ctx.check(abs((abs(e[:, k]) < 1).mean()-0.6827) < t/2, f'{what}: steps in {name} are not normal')
    ctx.check(abs((e[:, 0]*e[:, 1]).mean()) < t, f'{what}: steps in y and z are correlated')

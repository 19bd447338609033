from common import *
import contextlib, io, os, shutil
import newt.read_multiFor as rmf

check = Check('P27', 'Generated .gsq/.gbq files of degree 0-12, arbitrary complex values over 30 decades (m=0 real or not), E/F/repr number '
              'formats, arbitrary title and header numbers, name given with or without its extension.  Oracle: the values as '
              'printed (converted from cgs for .gsq), negative orders by conjugate symmetry.  Non-trivial: degree >= 2.')
fd = st.fixed_dictionaries
val = st.one_of(gen.fl(-9, 9), gen.fl(-9, 9), st.just(0.0),
                st.tuples(gen.fl(-9.99, 9.99), st.integers(-15, 15)).map(lambda t: float(f'{t[0]*10.0**t[1]:.9g}')))


def fmt(kind, x):
    if kind == 'E':
        return f'{x:15.6E}'
    if kind == 'F':
        return f'{x:15.8f}'
    return f' {x!r}'


@contextlib.contextmanager
def folder(*subs):
    d = f'/tmp/newt{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True)
    for s in subs:
        os.makedirs(os.path.join(d, s))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(path, title, LMax, rows, kind='r', head=None):
    head = head or ['  1.884956E+01', '  1.884956E+01', '       .00000      .00000      .50000', '   53.721234376385470',
                    '   50.893800988154650', ' T F', '        .0000']
    with open(path, 'w') as f:
        f.write(title+'\n')
        f.write(f'{LMax:3d}       0\n')
        for h in head:
            f.write(h+'\n')
        for a, b in rows:
            f.write(fmt(kind, a)+'   '+fmt(kind, b)+'\n')


@st.composite
def moms(draw):
    L = draw(st.one_of(st.integers(0, 5), st.integers(0, 12)))
    n = (L+1)*(L+2)//2
    if L <= 3:
        rows = draw(st.lists(st.tuples(val, val), min_size=n, max_size=n))
    else:
        g = np.random.default_rng(draw(st.integers(0, 10**6)))
        rows = [[float(v) for v in np.round(g.normal(size=2)*10.0**g.integers(-9, 9), 12)] for _ in range(n)]
    return dict(L=L, rows=[list(r) for r in rows])


@check.clause(fd(dict(t=moms(), real0=st.booleans(), kind=st.sampled_from('EFr'), outer=st.booleans(), ext=st.booleans(), name=gen.pick((6, st.just('part')), (6, st.sampled_from(['part.v2', 'ring 3', 'mygsq', 'mygbq', 'a.gsq.b', 'a.gbq.b', '2020-06-01', 'P1.0', 'x.mpc', '%x']))),
                      title=st.sampled_from([' test cone        ', '', 'x', '10 0', '% comment 3', ' many words 1 2 3']),
                      head=st.one_of(st.none(), st.lists(st.sampled_from(['', '1 2 3', ' T F', 'abc', '   .0']), min_size=7, max_size=7)))),
              quick=6000, thorough=100000, shards=8)
def tables(c, ctx):
    L, rows, k = c['t']['L'], [list(r) for r in c['t']['rows']], c['kind']
    i = 0
    want = np.zeros((L+1, 2*L+1), complex)
    for l in range(L+1):
        for m in range(l+1):
            if m == 0 and c['real0']:
                rows[i][1] = 0.0
            a, b = (float(fmt(k, v)) for v in rows[i])
            v = a+1j*b
            if not c['outer']:
                v = v*1e-3*0.01**l
            want[l, L+m] = v
            if m:
                want[l, L-m] = (-1)**m*v.conjugate()
            else:
                want[l, L] = v.real
            i += 1
    ext = '.gbq' if c['outer'] else '.gsq'
    f = rmf.read_gbq if c['outer'] else rmf.read_gsq
    with folder('mom') as d:
        write(f'{d}/mom/{c["name"]}{ext}', c['title'], L, rows, k, c['head'])
        got = ctx.call(f, c['name']+(ext if c['ext'] else ''), d+'/mom/')
    ctx.nt(L >= 2)
    ctx.label(ext, f'L{min(L, 6)}{"+" if L >= 6 else ""}', k)
    got = np.asarray(got)
    ctx.check(got.shape == (L+1, 2*L+1), lambda: f'{f.__name__}: degree {L} gives shape {got.shape}')
    ctx.close(got, want, 1e-14*np.abs(want)+1e-300, f'{f.__name__} of a degree {L} file')

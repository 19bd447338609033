"""Which special inputs do the checks reach?  (not used by any registered check)

python tools/triggers.py OUTDIR P01 P02 ...   runs the quick checks with every newt function wrapped, and lists for each function the
enumerated features of its arguments (zeros, equal pairs, ratios, angles beyond a turn, degrees, array sizes, ...) seen in few calls.
"""
import atexit
import glob
import inspect
import itertools
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = ['glib', 'pg2Multi', 'rotations', 'translations', 'translationRecurs', 'clebschGordan', 'multipoleLib', 'qlm', 'qlmACH', 'qlmNum',
        'bigQlm', 'bigQlmNum', 'glibShapes', 'gShapeGL', 'read_multiFor', 'shapes', 'genCAD']


def install(out):
    import numpy as np
    import importlib
    counts, depth, n = {}, [0], [0]

    def flush():
        with open(f'{out}/{os.getpid()}.json', 'w') as f:
            json.dump({k: v for k, v in counts.items()}, f)

    def hit(fn, feats):
        d = counts.setdefault(fn, {'calls': 0})
        d['calls'] += 1
        for f in feats:
            d[f] = d.get(f, 0)+1
        n[0] += 1
        if n[0] < 50 or n[0] % 100 == 0:
            flush()

    ANG = ('phi', 'beta', 'alpha', 'gamma', 'theta')

    def scalar(k, v, F):
        if isinstance(v, (bool, np.bool_)):
            F.append(f'{k}={bool(v)}')
            return
        v = float(v)
        integral = k in ('L', 'LMax', 'l', 'm', 'n', 'N', 'nx', 'ny', 'nz', 'dx', 'dy', 'dz', 'dd', 'lmax', 'LNew', 'j1', 'j2', 'J', 'M', 'm1', 'm2', 'p')
        if integral and v == int(v):
            v = int(v)
            for t in (0, 1, 2, 3, 4, 5):
                F.append(f'{k}=={t}') if v == t else None
            for t in (6, 8, 10, 13, 16, 20, 30):
                F.append(f'{k}>={t}') if v >= t else None
            if v < 0:
                F.append(f'{k}<0')
            return
        if v == 0:
            F.append(f'{k}==0')
        if v < 0:
            F.append(f'{k}<0')
        if v and v == int(v):
            F.append(f'{k} integral')
        a = abs(v)
        if any(s in k for s in ANG):
            for t, nm in ((np.pi/2, 'pi/2'), (np.pi, 'pi'), (2*np.pi, '2pi'), (np.pi/3, 'pi/3')):
                if abs(a-t) < 1e-12:
                    F.append(f'|{k}|=={nm}')
                elif abs(a-t) < 1e-3:
                    F.append(f'|{k}|~{nm}')
                if a > t:
                    F.append(f'|{k}|>{nm}')
            if 0 < a < 1e-3:
                F.append(f'0<|{k}|<1e-3')
            if 0 < a < 1e-6:
                F.append(f'0<|{k}|<1e-6')
            if a > 20:
                F.append(f'|{k}|>20')
        elif a:
            for t in (1e-2, 1e-4, 1e-6, 1e-9):
                F.append(f'|{k}|<{t:g}') if a < t else None
            for t in (10, 100, 1e4):
                F.append(f'|{k}|>{t:g}') if a > t else None

    def vector(k, v, F):
        F.append(f'{k} {type(v).__name__}')
        v = np.asarray(v, float)
        z = [i for i in range(3) if v[i] == 0]
        F.append(f'{k} zeros {z}')
        r = np.sqrt((v*v).sum())
        if r == 0:
            return
        for t in (1e-2, 1e-4, 1e-6):
            F.append(f'|{k}|<{t:g}') if r < t else None
        for t in (10, 100, 1e4):
            F.append(f'|{k}|>{t:g}') if r > t else None
        if abs(r-1) < 1e-12:
            F.append(f'|{k}|==1')
        elif abs(r-1) < 1e-2:
            F.append(f'|{k}|~1')
        for i in range(3):
            c = v[i]/r
            if abs(c) == 1:
                F.append(f'{k} along {"+-"[c < 0]}{"xyz"[i]}')
            elif abs(c) > 1-1e-6:
                F.append(f'{k} almost along {"+-"[c < 0]}{"xyz"[i]}')
            elif abs(c) > 1-1e-2:
                F.append(f'{k} nearly along {"+-"[c < 0]}{"xyz"[i]}')
            F.append(f'{k} {"xyz"[i]}<0') if c < 0 else None

    def points(k, v, F):
        if v.ndim == 1:
            F.append(f'{k} 1-d')
        F.append(f'{k} {v.dtype}')
        if not v.flags.c_contiguous:
            F.append(f'{k} strided')
        if not v.flags.writeable:
            F.append(f'{k} readonly')
        p = np.atleast_2d(v)
        N = len(p)
        for t in (0, 1, 2, 3):
            F.append(f'{k} N={t}') if N == t else None
        for t in (8, 16, 32, 64, 100, 128, 256, 512, 1000, 5000):
            F.append(f'{k} N>={t}') if N >= t else None
        if not N:
            return
        m = p[:, 0]
        for t, c in (('mass 0', (m == 0).any()), ('mass<0', (m < 0).any()), ('all<0', (m < 0).all()), ('equal masses', N > 1 and (m == m[0]).all()),
                     ('total~0', N > 1 and abs(m.sum()) < 1e-9*abs(m).sum())):
            F.append(f'{k} {t}') if c else None
        q = p[:, 1:4]
        r = np.sqrt((q*q).sum(1))
        for i in range(3):
            F.append(f'{k} all {"xyz"[i]}=0') if (q[:, i] == 0).all() else None
            F.append(f'{k} all {"xyz"[i]}<0') if (q[:, i] < 0).all() else None
        if (r == 0).any():
            F.append(f'{k} at origin')
        ax = (q[:, 0] == 0) & (q[:, 1] == 0) & (q[:, 2] != 0)
        if (ax & (q[:, 2] > 0)).any():
            F.append(f'{k} on +z')
        if (ax & (q[:, 2] < 0)).any():
            F.append(f'{k} on -z')
        nz = r[r > 0]
        if len(nz):
            for t in (1e-2, 1e-4, 1e-6, 1e-9):
                F.append(f'{k} max r<{t:g}') if nz.max() < t else None
                F.append(f'{k} min r<{t:g}') if nz.min() < t else None
            for t in (10, 100, 1e4, 1e6):
                F.append(f'{k} max r>{t:g}') if nz.max() > t else None
                F.append(f'{k} min r>{t:g}') if nz.min() > t else None
            for t in (1e2, 1e4, 1e6):
                F.append(f'{k} r ratio>{t:g}') if nz.max() > t*nz.min() else None
            nm = abs(m[m != 0])
            if len(nm):
                for t in (1e3, 1e6):
                    F.append(f'{k} mass ratio>{t:g}') if nm.max() > t*nm.min() else None
                for t in (1e-3, 1e-9):
                    F.append(f'{k} max mass<{t:g}') if nm.max() < t else None
                F.append(f'{k} max mass>1e3') if nm.max() > 1e3 else None
        if 1 < N < 200:
            F.append(f'{k} duplicates') if len(np.unique(q, axis=0)) < N else None
            d = np.sqrt(((q-q.mean(0))**2).sum(1)).max()
            F.append(f'{k} compact far away') if 0 < d < 1e-2*np.sqrt((q.mean(0)**2).sum()) else None

    def table(k, v, F):
        L = len(v)-1
        scalar('L', L, G := [])
        F += [f'{k}.{g}' for g in G]
        F.append(f'{k} {v.dtype}')
        if not v.flags.c_contiguous:
            F.append(f'{k} strided')
        if not v.flags.writeable:
            F.append(f'{k} readonly')
        a = abs(v)
        for t, c in (('zero', not a.any()), ('real', not np.imag(v).any()), ('q00=0', a[0, L] == 0), ('only m=0', not np.delete(a, L, 1).any()),
                     ('only one degree', (a.any(1)).sum() == 1), ('some degree empty', not a.any(1).all()), ('only even l', L > 0 and not a[1::2].any()),
                     ('small', 0 < a.max() < 1e-9), ('large', a.max() > 1e9), ('top degree only', L > 0 and not a[:-1].any())):
            F.append(f'{k} {t}') if c else None

    def features(ba):
        F, sc = [], []
        for k, v in ba.items():
            if k == 'self':
                continue
            try:
                if isinstance(v, (int, float, np.number, np.bool_)):
                    scalar(k, v, F)
                    if isinstance(v, (float, np.floating)) and not any(s in k for s in ANG) and k not in ('mass', 'dens', 'rho', 'cnst'):
                        sc.append((k, float(v)))
                    if k in ('mass', 'dens', 'rho'):
                        F.append(f'{k}<0') if v < 0 else None
                elif isinstance(v, str):
                    F.append(f'{k}={v}') if len(v) < 14 else None
                elif isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[1] == 2*v.shape[0]-1 and (np.iscomplexobj(v)):
                    table(k, v, F)
                elif isinstance(v, np.ndarray) and v.shape[-1:] == (4,):
                    points(k, v, F)
                elif isinstance(v, (list, tuple, np.ndarray)) and np.size(v) == 3:
                    vector(k, v, F)
                elif isinstance(v, (list, tuple)):
                    F.append(f'{k} {type(v).__name__} of {len(v)}')
            except Exception as e:
                F.append(f'{k}: {type(e).__name__}')
        for (a, x), (b, y) in itertools.combinations(sc, 2):
            if x == y and x:
                F.append(f'{a}=={b}')
            elif x == -y and x:
                F.append(f'{a}==-{b}')
            elif x and y:
                q = abs(x/y)
                if abs(q-1) < 1e-2:
                    F.append(f'{a}~{b}')
                for t in (10, 100, 1000):
                    F.append(f'{a}>{t}{b}') if q > t else None
                    F.append(f'{b}>{t}{a}') if q < 1/t else None
        return F

    def wrap(f, name):
        sig = inspect.signature(f)

        def g(*a, **k):
            if depth[0] == 0:
                try:
                    b = sig.bind(*a, **k)
                    b.apply_defaults()
                    hit(name, features(b.arguments))
                except TypeError:
                    pass
            depth[0] += 1
            try:
                return f(*a, **k)
            finally:
                depth[0] -= 1
        g.__name__, g.__doc__, g.__module__, g.__wrapped__, g.__qualname__ = f.__name__, f.__doc__, f.__module__, f, f.__qualname__
        return g

    for m in MODS:
        mod = importlib.import_module('newt.'+m)
        for k, f in list(vars(mod).items()):
            if inspect.isfunction(f) and f.__module__ == mod.__name__:
                setattr(mod, k, wrap(f, f'{m}.{k}'))
            elif inspect.isclass(f) and f.__module__ == mod.__name__:
                for kk in ('__init__', 'rotate', 'translate', 'add'):
                    if kk in vars(f):
                        setattr(f, kk, wrap(vars(f)[kk], f'{m}.{k}.{kk}'))
    atexit.register(flush)


def main():
    out, pids = sys.argv[1], sys.argv[2:]
    os.makedirs(out, exist_ok=True)
    for p in pids:
        d = f'{out}/{p}'
        os.makedirs(d, exist_ok=True)
        r = subprocess.run([sys.executable, 'run.py', p, '--tier', 'quick'], cwd=HERE, env=dict(os.environ, VERIF_TRIGGERS=d, VERIF_EVIDENCE=d+'/ev'),
                           capture_output=True, text=True)
        tot = {}
        for f in glob.glob(d+'/*.json'):
            for fn, c in json.load(open(f)).items():
                for k, v in c.items():
                    tot.setdefault(fn, {}).setdefault(k, 0)
                    tot[fn][k] += v
            os.remove(f)
        with open(f'{out}/{p}.json', 'w') as f:
            json.dump(tot, f)
        print(p, r.returncode, r.stdout.strip()[-100:], {k: v['calls'] for k, v in tot.items()})


if __name__ == '__main__':
    main()

"""A drop-in replacement of scipy.integrate.tplquad for the many-case clauses.

Nested Gauss quadrature with a sine substitution at every level (accurate for the
square-root end points of round solids), composite where asked; the integrand is
evaluated on whole arrays when it allows it, else point by point.  The *_real clauses
run the genuine integrator.
"""
import contextlib
import io
import numpy as np
import scipy.integrate as intg


class Rule:
    def __init__(self, n, panels=1):
        t, w = np.polynomial.legendre.leggauss(n)
        h = np.pi/panels/2
        mids = -np.pi/2+h*(2*np.arange(panels)+1)
        u = (mids[:, None]+h*t).ravel()
        self.s, self.c = np.sin(u), np.cos(u)*np.tile(w*h, panels)

    def __call__(self, func, a, b, gfun, hfun, qfun, rfun, args=(), epsabs=None, epsrel=None):
        args = args if isinstance(args, tuple) else (args,)
        S, C = self.s, self.c

        def ev(f, *x):
            return float(f(*x)) if callable(f) else float(f)
        X, Y, Z, W = [], [], [], []
        m, h = (a+b)/2, (b-a)/2
        for s, c in zip(S, C):
            x = m+h*s
            y0, y1 = ev(gfun, x), ev(hfun, x)
            ys = (y0+y1)/2+(y1-y0)/2*S
            for y, cy in zip(ys, C*(y1-y0)/2):
                z0, z1 = ev(qfun, x, y), ev(rfun, x, y)
                X.append(x)
                Y.append(y)
                Z.append((z0+z1)/2+(z1-z0)/2*S)
                W.append(h*c*cy*(z1-z0)/2*C)
        n = len(S)
        X, Y, Z, W = np.repeat(X, n), np.repeat(Y, n), np.concatenate(Z), np.concatenate(W)
        v = None
        for t in (complex, float):      # in-place products in the integrand need a complex array
            try:
                v = np.asarray(func(Z.astype(t), Y.astype(t), X.astype(t), *args), float)
                if v.shape == Z.shape:
                    break
            except Exception:
                pass
            v = None
        if v is None:
            v = np.array([float(func(z, y, x, *args)) for z, y, x in zip(Z, Y, X)])
        return float(v @ W), 1e-12


@contextlib.contextmanager
def fast(n=30, panels=1):
    old = intg.tplquad
    intg.tplquad = Rule(n, panels)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        intg.tplquad = old


@contextlib.contextmanager
def real():
    with contextlib.redirect_stdout(io.StringIO()):
        yield

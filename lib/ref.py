"""Independent reference models: solid harmonics, fields, point transforms.

Nothing here imports newt.  Harmonics follow the convention of the toolkit's
documentation (Condon-Shortley phase, orthonormal Y_lm):
   q_lm = sum m_i r_i^l conj(Y_lm),   Q_lm = sum m_i Y_lm / r_i^(l+1)
stored as [l, L+m] in an (L+1)x(2L+1) array.
"""
import math
import numpy as np

G = 6.67428e-11


def norm(l, m):
    return math.sqrt((2*l+1)/(4*math.pi)*math.exp(math.lgamma(l-m+1)-math.lgamma(l+m+1)))


def solid(L, p):
    """R_lm = r^l Y_lm at points p (N,3) -> complex (L+1, 2L+1, N)."""
    p = np.asarray(p, float).reshape(-1, 3)
    x, y, z = p[:, 0], p[:, 1], p[:, 2]
    r2 = x*x+y*y+z*z
    A = np.zeros((L+1, L+1, len(p)), complex)
    xy = x+1j*y
    # store normalised values to keep the magnitudes bounded
    A[0, 0] = 1/math.sqrt(4*math.pi)
    for m in range(1, L+1):
        A[m, m] = -math.sqrt((2*m+1)/(2*m))*xy*A[m-1, m-1]
    for m in range(L+1):
        for l in range(m+1, L+1):
            a = math.sqrt((4*l*l-1)/(l*l-m*m))
            A[l, m] = a*z*A[l-1, m]
            if l-2 >= m:
                b = math.sqrt(((l-1)**2-m*m)/(4*(l-1)**2-1))
                A[l, m] -= a*b*r2*A[l-2, m]
    out = np.zeros((L+1, 2*L+1, len(p)), complex)
    for l in range(L+1):
        for m in range(l+1):
            out[l, L+m] = A[l, m]
            if m:
                out[l, L-m] = (-1)**m*np.conj(A[l, m])
    return out


def inner(L, pts):
    pts = np.atleast_2d(np.asarray(pts, float))
    return np.conj(solid(L, pts[:, 1:4])) @ pts[:, 0]


def inner_abs(L, pts):
    """Natural size of each inner moment: sum |m| r^l (per l)."""
    pts = np.atleast_2d(np.asarray(pts, float))
    r = np.sqrt((pts[:, 1:4]**2).sum(1))
    return np.array([np.sum(np.abs(pts[:, 0])*r**l) for l in range(L+1)])


def outer(L, pts):
    pts = np.atleast_2d(np.asarray(pts, float))
    r = np.sqrt((pts[:, 1:4]**2).sum(1))
    S = solid(L, pts[:, 1:4]/r[:, None])
    w = np.array([pts[:, 0]/r**(l+1) for l in range(L+1)])
    return np.einsum('lmi,li->lm', S, w)


def outer_abs(L, pts):
    pts = np.atleast_2d(np.asarray(pts, float))
    r = np.sqrt((pts[:, 1:4]**2).sum(1))
    return np.array([np.sum(np.abs(pts[:, 0])/r**(l+1)) for l in range(L+1)])


def outer_field(Q, x):
    """Real field of outer moments at x (N,3): sum 4pi/(2l+1) Q_lm r^l conj(Y_lm).

    For outer moments of points this is sum_i m_i/|x - x_i| (truncated)."""
    L = len(Q)-1
    S = np.conj(solid(L, x))
    f = np.array([4*math.pi/(2*l+1) for l in range(L+1)])
    return np.einsum('lm,lmn,l->n', Q, S, f)


def inner_field(q, x):
    """Field outside of inner moments q: sum 4pi/(2l+1) q_lm Y_lm/r^(l+1)."""
    L = len(q)-1
    x = np.asarray(x, float).reshape(-1, 3)
    r = np.sqrt((x**2).sum(1))
    S = solid(L, x/r[:, None])
    w = np.array([4*math.pi/(2*l+1)/r**(l+1) for l in range(L+1)])
    return np.einsum('lm,lmn,ln->n', q, S, w)


def solid_grad(L, p):
    """Gradient of R_lm: (3, L+1, 2L+1, N), from the ladder identities."""
    p = np.asarray(p, float).reshape(-1, 3)
    R = solid(L, p)
    N = len(p)
    out = np.zeros((3, L+1, 2*L+1, N), complex)

    def get(l, m):
        if l < 0 or abs(m) > l:
            return np.zeros(N, complex)
        return R[l, L+m]
    for l in range(1, L+1):
        for m in range(-l, l+1):
            # d/dz R_lm = sqrt((2l+1)/(2l-1)) sqrt(l^2-m^2) R_{l-1,m}
            c = math.sqrt((2*l+1)/(2*l-1))
            dz = c*math.sqrt(max(l*l-m*m, 0))*get(l-1, m)
            # (dx + i dy) R_lm = +c sqrt((l-m)(l-m-1)) R_{l-1,m+1}
            dp = c*math.sqrt(max((l-m)*(l-m-1), 0))*get(l-1, m+1)
            # (dx - i dy) R_lm = -c sqrt((l+m)(l+m-1)) R_{l-1,m-1}
            dm = -c*math.sqrt(max((l+m)*(l+m-1), 0))*get(l-1, m-1)
            out[0, l, L+m] = (dp+dm)/2
            out[1, l, L+m] = (dp-dm)/(2j)
            out[2, l, L+m] = dz
    return out


def outer_field_grad(Q, x):
    """Gradient (N,3) of outer_field."""
    L = len(Q)-1
    Gd = np.conj(solid_grad(L, x))
    f = np.array([4*math.pi/(2*l+1) for l in range(L+1)])
    return np.einsum('lm,klmn,l->nk', Q, Gd, f)


# ---------------------------------------------------------------- transforms
def rotm(theta, axis):
    """Right-handed rotation matrix about axis, via the exponential map."""
    k = np.asarray(axis, float)
    k = k/math.sqrt(float(k @ k))
    c, s = math.cos(theta), math.sin(theta)
    x, y, z = k
    C = 1-c
    return np.array([[c+x*x*C, x*y*C-z*s, x*z*C+y*s],
                     [y*x*C+z*s, c+y*y*C, y*z*C-x*s],
                     [z*x*C-y*s, z*y*C+x*s, c+z*z*C]])


def euler(a, b, g):
    """Points rotated about z by g, then y by b, then z by a."""
    return rotm(a, [0, 0, 1]) @ rotm(b, [0, 1, 0]) @ rotm(g, [0, 0, 1])


def move(pts, R=None, d=None):
    pts = np.array(np.atleast_2d(pts), float)
    if R is not None:
        pts[:, 1:4] = pts[:, 1:4] @ np.asarray(R).T
    if d is not None:
        pts[:, 1:4] = pts[:, 1:4] + np.asarray(d, float)
    return pts


def mirror(q):
    """The array implied by q(l,-m) = (-1)^m conj q(l,m)."""
    L = len(q)-1
    ms = np.arange(-L, L+1)
    return np.conj(np.fliplr(q))*(-1.0)**np.abs(ms)


def lm_tol(scale, L, rel):
    """Per-entry tolerance array; entries with |m|>l must be (near) zero."""
    t = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        t[l, :] = rel*scale[l]
    return t


# ------------------------------------------------------- quadrature of solids
def gl(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return x, w

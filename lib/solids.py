"""Independent models of the solids: quadrature nodes [dV, x, y, z] (sum dV = volume).

The node sets integrate polynomials of degree <= deg exactly (prisms, tetrahedra,
cones, plane-cut oblique cylinders) or to near machine precision (azimuthal wedges,
intersecting cylinders, circular segments).  Nothing here imports newt.
"""
import math
import functools
import numpy as np


@functools.lru_cache(None)
def gl01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x+1)/2, w/2


def _nodes(n, a, b):
    x, w = gl01(n)
    return a+(b-a)*x, (b-a)*w


def tri2d(a, b, c, deg):
    """Nodes (w, x, y) of a triangle (collapsed coordinates, exact to deg)."""
    n = (deg+3)//2+1
    u, wu = gl01(n)
    U, V = np.meshgrid(u, u, indexing='ij')
    W = np.outer(wu*u, wu)              # (u, u*v) collapsed at vertex a
    a, b, c = (np.asarray(q, float) for q in (a, b, c))
    P = a+(b-a)*U[..., None]+(c-b)*(U*V)[..., None]
    J = abs((b-a)[0]*(c-a)[1]-(b-a)[1]*(c-a)[0])
    return (W*J).ravel(), P.reshape(-1, 2)


def spin(nodes, phi):
    """Turn nodes about z (keeps the accuracy of thin bodies, which turning the vertices would lose)."""
    c, s = math.cos(phi), math.sin(phi)
    n = nodes.copy()
    n[:, 1], n[:, 2] = c*nodes[:, 1]-s*nodes[:, 2], s*nodes[:, 1]+c*nodes[:, 2]
    return n


def extrude(w, P, z0, z1, deg):
    z, wz = _nodes(deg//2+2, z0, z1)
    W = np.outer(w, wz).ravel()
    X = np.repeat(P, len(z), 0)
    return np.column_stack([W, X, np.tile(z, len(w))])


def poly_prism(verts, z0, z1, deg):
    """Prism over a convex polygon (fan from the first vertex)."""
    out = []
    for i in range(1, len(verts)-1):
        w, P = tri2d(verts[0], verts[i], verts[i+1], deg)
        out.append(extrude(w, P, z0, z1, deg))
    return np.vstack(out)


def tet(v, deg):
    v = [np.asarray(q, float) for q in v]
    n = (deg+4)//2+1
    u, wu = gl01(n)
    A, B, C = np.meshgrid(u, u, u, indexing='ij')
    W = wu[:, None, None]*u[:, None, None]**2*wu[None, :, None]*u[None, :, None]*wu[None, None, :]
    P = v[0]+(v[1]-v[0])*A[..., None]+(v[2]-v[1])*(A*B)[..., None]+(v[3]-v[2])*(A*B*C)[..., None]
    J = abs(np.linalg.det(np.array([v[1]-v[0], v[2]-v[0], v[3]-v[0]])))
    return np.column_stack([(W*J).ravel(), P.reshape(-1, 3)])


def _phi(phic, phih, deg):
    x, w = gl01(14+int(1.2*(deg+1)*phih))
    return phic+phih*(2*x-1), 2*phih*w


def revolve(zr, phic, phih, deg):
    """zr: (w, rho, z) nodes of the half-plane section including the factor rho."""
    ph, wp = _phi(phic, phih, deg)
    w, rho, z = zr
    W = np.outer(w, wp).ravel()
    X = np.outer(rho, np.cos(ph)).ravel()
    Y = np.outer(rho, np.sin(ph)).ravel()
    return np.column_stack([W, X, Y, np.repeat(z, len(ph))])


def section(z0, z1, rin, rout, deg, extra=0):
    """Half-plane nodes between rin(z) and rout(z) (callables or numbers)."""
    n = deg//2+3+extra
    z, wz = _nodes(n, z0, z1)
    s, ws = gl01(n)
    a = rin(z) if callable(rin) else np.full_like(z, rin)
    b = rout(z) if callable(rout) else np.full_like(z, rout)
    rho = a[:, None]+(b-a)[:, None]*s
    W = wz[:, None]*(b-a)[:, None]*ws*rho
    return W.ravel(), rho.ravel(), np.repeat(z, n)


def annulus(z0, z1, ri, ro, phic, phih, deg, extra=0):
    return revolve(section(z0, z1, ri, ro, deg, extra), phic, phih, deg)


def frustum(z0, z1, r0, r1, phic, phih, deg, rin=0.0, extra=0):
    """Radius r0 at z0 to r1 at z1."""
    return revolve(section(z0, z1, rin, lambda z: r0+(r1-r0)*(z-z0)/(z1-z0), deg, extra), phic, phih, deg)


def cone_shell(H, ri, ro, phic, phih, deg, extra=0):
    """Radius from ri (constant) to the cone that is ro at z=0 and ri at z=H."""
    return frustum(0.0, H, ro, ri, phic, phih, deg, rin=ri, extra=extra)


def sphere(r, deg):
    x, w = np.polynomial.legendre.leggauss(deg//2+2)
    s, ws = gl01(deg//2+3)
    ph = 2*np.pi*np.arange(deg+2)/(deg+2)
    wp = 2*np.pi/(deg+2)
    S, X, PH = np.meshgrid(s*r, x, ph, indexing='ij')
    W = (ws*r*(s*r)**2)[:, None, None]*w[None, :, None]*wp*np.ones_like(S)
    st = np.sqrt(1-X*X)
    return np.column_stack([a.ravel() for a in (W, S*st*np.cos(PH), S*st*np.sin(PH), S*X)])


def cylhole(r, R, deg, axis='y', n=160):
    """Intersection of a cylinder of radius r about z and of radius R about axis (r <= R)."""
    t, wt = _nodes(n, -math.pi/2, math.pi/2)
    # a = r sin t is the coordinate that limits z: |z| <= sqrt(R^2 - a^2)
    a = r*np.sin(t)
    half = r*np.cos(t)
    zh = np.sqrt(np.maximum(R*R-a*a, 0.0))
    s, ws = np.polynomial.legendre.leggauss(deg//2+2)
    A = a[:, None, None]+0*s[None, :, None]+0*s[None, None, :]
    B = half[:, None, None]*s[None, :, None]+0*s[None, None, :]
    Z = zh[:, None, None]*s[None, None, :]+0*s[None, :, None]
    W = (wt*half*half*zh)[:, None, None]*ws[None, :, None]*ws[None, None, :]
    cols = [W, A, B, Z] if axis == 'y' else [W, B, A, Z]
    return np.column_stack([c.ravel() for c in cols])


def disk(r, deg, n=None):
    """Nodes (w, a, b) of a disk."""
    m = deg+2
    ph = 2*np.pi*(np.arange(m)+0.5)/m
    s, ws = gl01(deg//2+3)
    W = np.outer(ws*s*r*r, np.full(m, 2*np.pi/m)).ravel()
    return W, np.outer(s*r, np.cos(ph)).ravel(), np.outer(s*r, np.sin(ph)).ravel()


def platehole(t, r, theta, deg, frame='plate'):
    """Oblique plug: hole of radius r whose axis is (sin th, 0, cos th), plate |z| <= t/2.
    frame='hole': the same body with the hole axis along z and the plate tilted."""
    w, a, b = disk(r, deg)
    z, wz = _nodes(deg//2+2, -t/2, t/2)
    c, s = math.cos(theta), math.sin(theta)
    A, B = np.repeat(a, len(z)), np.repeat(b, len(z))
    Z = np.tile(z, len(a))
    S = (Z+A*s)/c                      # distance along the hole axis
    W = np.outer(w, wz).ravel()/c
    if frame == 'hole':
        return np.column_stack([W, A, B, S])
    return np.column_stack([W, A*c+S*s, B, -A*s+S*c])


def segment(t, r, d, deg, n=80):
    """Circular segment d <= x, x^2+y^2 <= r^2, |z| <= t/2."""
    al = math.acos(d/r)
    # x = r cos u, u in [0, al]; y in +-r sin u
    u, wu = _nodes(n, 0.0, al)
    s, ws = np.polynomial.legendre.leggauss(deg//2+2)
    x = r*np.cos(u)
    h = r*np.sin(u)
    W = np.outer(wu*r*np.sin(u)*h, ws).ravel()
    P = np.column_stack([np.repeat(x, len(s)), np.outer(h, s).ravel()])
    return extrude(W, P, -t/2, t/2, deg)


def trapezoid_poly(w1, w2, h, x0=0.0):
    v = [(x0, -w1/2), (x0+h, -w2/2), (x0+h, w2/2), (x0, w1/2)]
    if w1 == 0:
        v = [(x0, 0.0), (x0+h, -w2/2), (x0+h, w2/2)]
    elif w2 == 0:
        v = [(x0, -w1/2), (x0+h, 0.0), (x0, w1/2)]
    return v


def rect(x, y, phi=0.0):
    c, s = math.cos(phi), math.sin(phi)
    return [(c*a-s*b, s*a+c*b) for a, b in ((x/2, -y/2), (x/2, y/2), (-x/2, y/2), (-x/2, -y/2))]


def ngon(N, a, phi=0.0):
    """First side parallel to y at x>0 when phi=0."""
    R = a/2/math.sin(math.pi/N)
    return [(R*math.cos(phi+math.pi*(2*k-1)/N), R*math.sin(phi+math.pi*(2*k-1)/N)) for k in range(N)]


def pyramid(hx, hy, z, deg):
    """Half-lengths hx, hy at z=0, apex at (0,0,z)."""
    b = [(hx, -hy, 0), (hx, hy, 0), (-hx, hy, 0), (-hx, -hy, 0)]
    return np.vstack([tet([b[0], b[1], b[2], (0, 0, z)], deg), tet([b[0], b[2], b[3], (0, 0, z)], deg)])


def inside_poly(P, verts, tol):
    """P (N,2) inside the convex polygon (either orientation), with slack tol."""
    v = np.asarray(verts, float)
    n = len(v)
    area = sum(v[i, 0]*v[(i+1) % n, 1]-v[(i+1) % n, 0]*v[i, 1] for i in range(n))
    sgn = 1 if area > 0 else -1
    ok = np.ones(len(P), bool)
    for i in range(n):
        e = v[(i+1) % n]-v[i]
        d = sgn*(e[0]*(P[:, 1]-v[i, 1])-e[1]*(P[:, 0]-v[i, 0]))
        ok &= d >= -tol*np.hypot(*e)
    return ok


def graded(a, b, c, n=14):
    """Composite Gauss nodes on [a, b] for integrands analytic at distance ~max(|t|, c)."""
    cuts = {a, b}
    k = c
    while k < max(abs(a), abs(b)):
        for v in (-k, k):
            if a < v < b:
                cuts.add(v)
        k *= 2
    if a < 0 < b:
        cuts.add(0.0)
    cuts = sorted(cuts)
    X, W = [], []
    for p, q in zip(cuts, cuts[1:]):
        x, w = _nodes(n, p, q)
        X.append(x)
        W.append(w)
    return np.concatenate(X), np.concatenate(W)


def outer_annulus(z0, z1, ri, ro, phic, phih, deg):
    near = max(ri, z0, -z1, 1e-9)
    z, wz = graded(z0, z1, near)
    r, wr = graded(ri, ro, near)
    W = np.outer(wz, wr*r).ravel()
    return revolve((W, np.tile(r, len(z)), np.repeat(z, len(r))), phic, phih, deg)


def outer_cone_shell(H, ri, ro, phic, phih, deg):
    """Between radius ri and the cone of radius ro at z=0, ri at z=H."""
    r, wr = graded(ri, ro, ri)
    parts = []
    for rr, w in zip(r, wr):
        z, wz = graded(0.0, H*(ro-rr)/(ro-ri), rr)
        parts.append((wz*w*rr, np.full_like(z, rr), z))
    return revolve(tuple(np.concatenate([p[i] for p in parts]) for i in range(3)), phic, phih, deg)


def outer_trap(z0, z1, ri, ro, phih):
    """x from ri cos(phih) to ro cos(phih), |y| <= x tan(phih), z0 <= z <= z1."""
    c = math.cos(phih)
    near = max(ri*c, z0, -z1, 1e-9)
    x, wx = graded(ri*c, ro*c, near)
    t, wt = graded(-math.tan(phih), math.tan(phih), 1.0)
    z, wz = graded(z0, z1, near)
    W = np.einsum('i,j,k->ijk', wx*x, wt, wz)
    X = x[:, None, None]+0*W
    Y = x[:, None, None]*t[None, :, None]+0*W
    Z = z[None, None, :]+0*W
    return np.column_stack([q.ravel() for q in (W, X, Y, Z)])


def corner_trap(ri, ro, phih):
    c, s = math.cos(phih), math.sin(phih)
    v = [(ri*c, -ri*s), (ro*c, -ro*s), (ro*c, ro*s), (ri*c, ri*s)]
    return v if ri > 0 else v[:3]

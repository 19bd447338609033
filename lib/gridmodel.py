"""Documented solids of the point-mass generators: membership slack, bounding box, quadrature.

slack(P) is positive strictly inside, negative strictly outside (in length units,
not necessarily the distance).  Nothing here imports newt.
"""
import math
import numpy as np
import solids as S


def _wedge(P, beta):
    r = np.hypot(P[:, 0], P[:, 1])
    if beta >= math.pi:
        return np.full(len(P), np.inf)
    return r*(beta-np.abs(np.arctan2(P[:, 1], P[:, 0])))


def _tri(P, d, y1, y2):
    n1, n2 = math.hypot(d, y1), math.hypot(d, y2)
    return np.minimum.reduce([(P[:, 1]*d-P[:, 0]*y1)/n1, (P[:, 0]*y2-P[:, 1]*d)/n2, d-P[:, 0]])


class Solid:
    """box: [[x0,x1],[y0,y1],[z0,z1]] tight; sym: axes whose reflection maps the solid to itself."""
    def __init__(self, slack, box, nodes, sym):
        self.slack, self.box, self.nodes, self.sym = slack, np.array(box, float), nodes, sym
        self.size = float(np.abs(self.box).max())


def sphere(R):
    return Solid(lambda P: R-np.sqrt((P**2).sum(1)), [[-R, R]]*3, lambda d: S.sphere(R, d), 'xyz')


def rectangle(x, y, z):
    h = np.array([x, y, z])/2
    return Solid(lambda P: (h-np.abs(P)).min(1), np.column_stack([-h, h]),
                 lambda d: S.poly_prism(S.rect(x, y), -z/2, z/2, d), 'xyz')


def wedge(r1, r2, t, beta, z0=None):
    """Annular section about +x, centred in z."""
    c, s = math.cos(beta), math.sin(beta)

    def slack(P):
        r = np.hypot(P[:, 0], P[:, 1])
        k = np.minimum.reduce([r2-r, t/2-np.abs(P[:, 2]), _wedge(P, beta)])
        return np.minimum(k, r-r1) if r1 > 0 else k
    x0, y = (c*r1, s*r2) if beta < math.pi/2 else (c*r2, r2)
    if beta >= math.pi:
        x0 = -r2
    return Solid(slack, [[x0, r2], [-y, y], [-t/2, t/2]],
                 lambda d: S.annulus(-t/2, t/2, r1, r2, 0.0, min(beta, math.pi), d), 'xyz' if beta >= math.pi else 'yz')


def outer_cone(r1, r2, H, beta):
    c, s = math.cos(beta), math.sin(beta)
    L = math.hypot(H, r2-r1)

    def slack(P):
        r = np.hypot(P[:, 0], P[:, 1])
        k = np.minimum.reduce([((r2-r)*H-P[:, 2]*(r2-r1))/L, P[:, 2], H-P[:, 2], _wedge(P, beta)])
        return np.minimum(k, r-r1) if r1 > 0 else k
    x0, y = (c*r1, s*r2) if beta < math.pi/2 else (c*r2, r2)
    if beta >= math.pi:
        x0 = -r2
    return Solid(slack, [[x0, r2], [-y, y], [0, H]],
                 lambda d: S.cone_shell(H, r1, r2, 0.0, min(beta, math.pi), d), 'xy' if beta >= math.pi else 'y')


def cone(R, H, beta):
    return outer_cone(0.0, R, H, beta)


def trapezoid(r1, r2, t, beta):
    c, tn = math.cos(beta), math.tan(beta)
    x0, x1 = r1*c, r2*c

    def slack(P):
        return np.minimum.reduce([P[:, 0]-x0, x1-P[:, 0], P[:, 0]*math.sin(beta)-np.abs(P[:, 1])*c, t/2-np.abs(P[:, 2])])
    v = [(x0, -x0*tn), (x1, -x1*tn), (x1, x1*tn), (x0, x0*tn)]
    return Solid(slack, [[x0, x1], [-x1*tn, x1*tn], [-t/2, t/2]],
                 lambda d: S.poly_prism(v if r1 > 0 else v[:3], -t/2, t/2, d), 'yz')


def tri_prism(d, y1, y2, t):
    return Solid(lambda P: np.minimum(_tri(P, d, y1, y2), t/2-np.abs(P[:, 2])),
                 [[0, d], [min(0, y1), max(0, y2)], [-t/2, t/2]],
                 lambda g: S.poly_prism([(0, 0), (d, y1), (d, y2)], -t/2, t/2, g), 'z')


def tetrahedron(x, y1, y2, z):
    L = math.hypot(x, z)

    def slack(P):
        n1, n2 = math.hypot(x, y1), math.hypot(x, y2)
        return np.minimum.reduce([(P[:, 1]*x-P[:, 0]*y1)/n1, (P[:, 0]*y2-P[:, 1]*x)/n2, P[:, 2],
                                  (x*z-P[:, 0]*z-P[:, 2]*x)/L])
    return Solid(slack, [[0, x], [min(0, y1), max(0, y2)], [0, z]],
                 lambda g: S.tet([(x, y1, 0), (x, y2, 0), (0, 0, 0), (0, 0, z)], g), '')


def ngon_prism(H, a, N):
    b = a/2/math.tan(math.pi/N)
    v = np.array(S.ngon(N, a))
    ang = 2*np.pi*np.arange(N)/N

    def slack(P):
        k = b-(P[:, :1]*np.cos(ang)+P[:, 1:2]*np.sin(ang)).max(1)
        return np.minimum(k, H/2-np.abs(P[:, 2]))
    return Solid(slack, [[v[:, 0].min(), v[:, 0].max()], [v[:, 1].min(), v[:, 1].max()], [-H/2, H/2]],
                 lambda g: S.poly_prism([tuple(q) for q in v], -H/2, H/2, g), 'xyz' if N % 2 == 0 else 'yz')


def pyramid(x, y, z):
    def slack(P):
        a, b = np.abs(P[:, 0]), np.abs(P[:, 1])
        return np.minimum.reduce([P[:, 2], (x*z-a*z-P[:, 2]*x)/math.hypot(x, z), (y*z-b*z-P[:, 2]*y)/math.hypot(y, z)])
    return Solid(slack, [[-x, x], [-y, y], [0, z]], lambda g: S.pyramid(x, y, z, g), 'xy')


def cylhole(r, R):
    def slack(P):
        return np.minimum(r-np.hypot(P[:, 0], P[:, 1]), R-np.hypot(P[:, 0], P[:, 2]))
    return Solid(slack, [[-r, r], [-r, r], [-R, R]], lambda g: S.cylhole(r, R, g, axis='y'), 'xyz')


def platehole(t, r, theta):
    c, s = math.cos(theta), math.sin(theta)

    def slack(P):
        return np.minimum(r-np.hypot(P[:, 1], P[:, 0]*c-P[:, 2]*s), t/2-np.abs(P[:, 2]))
    X = r/c+t*abs(s/c)/2
    return Solid(slack, [[-X, X], [-r, r], [-t/2, t/2]], lambda g: S.platehole(t, r, theta, g, frame='plate'), 'y')


def moments(nodes):
    """Volume averages: first moments and second moments about the origin."""
    w = nodes[:, 0]/nodes[:, 0].sum()
    P = nodes[:, 1:]
    return w @ P, np.einsum('i,ij,ik->jk', w, P, P)

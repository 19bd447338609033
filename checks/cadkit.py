"""Volume, centre and second moments of CAD solids, and the solids they should be."""
from solidkit import *
import newt.genCAD as g
from OCP.GProp import GProp_GProps
from OCP.BRepGProp import BRepGProp

PI = math.pi
sz = gen.pick((9, gen.pos(0.3, 3.0)), (1, gen.fl(0.03, 0.3)), (1, gen.fl(3.0, 20.0)))
ang = st.one_of(gen.angle(-7, 7), st.just(0.0))
half = gen.pick((4, gen.fl(0.1, PI)), (4, gen.fl(0.1, 1.5)), (4, st.sampled_from([PI, PI/2, PI/4])), (1, gen.fl(0.005, 0.1)), (1, gen.fl(0.002, 0.1).map(lambda d: PI-d)))
fd = st.fixed_dictionaries
small = st.sampled_from([0.0, 1e-6, 1e-4, 1e-3, 0.01, 0.03])
tilt = gen.pick((6, gen.fl(-1.2, 1.2)), (3, gen.fl(-1.45, 1.45)), (1, small), (1, small.map(lambda v: -v)))


def body(mesh):
    """(volume, mean, mean outer product about the origin, solid is valid)"""
    sh = mesh.val()
    P = GProp_GProps()
    BRepGProp.VolumeProperties_s(sh.wrapped, P, 1e-9)
    V, c, M = P.Mass(), P.CentreOfMass(), P.MatrixOfInertia()
    I = np.array([[M.Value(i, j) for j in (1, 2, 3)] for i in (1, 2, 3)])
    c = np.array([c.X(), c.Y(), c.Z()])
    S2 = (np.trace(I)/2*np.eye(3)-I)/V+np.outer(c, c)
    return V, c, S2, sh.isValid()


def of_nodes(n):
    w = n[:, 0]
    V = w.sum()
    return V, w @ n[:, 1:]/V, np.einsum('i,ij,ik->jk', w, n[:, 1:], n[:, 1:])/V


def compare(ctx, mesh, nodes, what, rel=1e-6):
    got = body(mesh)
    want = of_nodes(nodes)
    r = np.sqrt((nodes[:, 1:]**2).sum(1).max())
    ctx.check(got[3], lambda: f'{what}: not a valid solid')
    ctx.check(abs(got[0]-want[0]) <= rel*10*want[0]+1e-9, lambda: f'{what}: volume {got[0]!r}, expected {want[0]!r}')
    ctx.close(got[1], want[1], rel*(1+r), f'{what}: centre of mass')
    ctx.close(got[2], want[2], rel*(1+r*r)*3, f'{what}: mean second moments')


@st.composite
def ring(draw, lo=0.02, zero=True):
    ro = draw(sz)
    if zero and draw(st.integers(0, 3)) == 0:
        return [0.0, ro]
    return [ro*draw(gen.pick((8, gen.fl(lo, 0.95)), (1, gen.fl(0.95, 0.99)), (1, gen.fl(0.004, 0.02)))), ro]


@st.composite
def ys(draw):
    a, d = draw(gen.fl(-2.5, 2.0)), draw(gen.fl(0.3, 3.0))
    return draw(gen.pick((7, st.just([a, a+d])), (1, st.just([-d/2, d/2])), (1, st.just([0.0, d])), (1, st.just([-d, 0.0]))))


def turn(n, phi):
    return ref.move(n, ref.rotm(phi, [0, 0, 1]))


SOLIDS = dict(
    sphere=fd(dict(R=sz)), cylinder=fd(dict(H=sz, R=sz)), annulus=fd(dict(H=sz, r=ring(), w=st.tuples(ang, half))),
    cone=fd(dict(H=sz, R=sz, f=gen.pick((4, st.just(0.0)), (4, gen.fl(0.05, 1.6)), (2, gen.fl(0.002, 0.05)), (1, gen.fl(1.6, 20.0))), w=st.tuples(ang, half))),
    tri_iso_prism=fd(dict(H=sz, a=sz, d=sz, p=ang)), tri_iso_prism2=fd(dict(H=sz, R=sz, p=ang, h=gen.pick((6, gen.fl(0.1, 1.4)), (1, gen.fl(0.01, 0.1)), (1, gen.fl(1.4, 1.55))))),
    tri_prism=fd(dict(H=sz, d=sz, y=ys())), rect_prism=fd(dict(H=sz, a=sz, b=sz, p=ang)),
    trapezoid=fd(dict(t=sz, w=sz, f=gen.pick((4, gen.fl(0.1, 1.0)), (2, st.just(1.0)), (1, gen.fl(0.98, 0.9999)), (1, gen.fl(0.005, 0.1)), (2, gen.fl(1.0, 8.0))), h=sz)),
    ngon_prism=fd(dict(H=sz, a=sz, p=ang, N=gen.degree((6, 3, 9), (1, 10, 40)))), tetrahedron=fd(dict(x=sz, y=sz, z=sz)),
    tetrahedron2=fd(dict(x=sz, y=ys(), z=sz)), pyramid=fd(dict(x=sz, y=sz, z=sz)),
    cylhole=fd(dict(R=sz, f=gen.pick((8, gen.fl(0.1, 0.95)), (1, st.sampled_from([0.97, 0.99, 0.02]))))), platehole=fd(dict(t=sz, r=sz, th=tilt)),
    outercone=fd(dict(H=sz, r=ring(0.05, False), h=half)))


def model(s, c, deg=2):
    """(arguments after pmass, quadrature nodes)"""
    if s == 'sphere':
        return (c['R'],), S.sphere(c['R'], deg)
    if s == 'cylinder':
        return (c['H'], c['R']), S.annulus(-c['H']/2, c['H']/2, 0.0, c['R'], 0.0, PI, deg)
    if s == 'annulus':
        return (c['H'], *c['r'], *c['w']), S.annulus(-c['H']/2, c['H']/2, *c['r'], *c['w'], deg)
    if s == 'cone':
        # the CAD kernel itself rounds a wall within about 1e-4 of vertical to a cylinder
        near = abs(1-c['f'])*c['R'] < 2e-3*c['H']
        r1 = c['R']*(1.0 if near else c['f'])
        return (c['H'], r1, c['R'], *c['w']), S.frustum(0.0, c['H'], c['R'], r1, *c['w'], deg)
    if s == 'tri_iso_prism':
        return (c['H'], c['a'], c['d'], c['p']), turn(S.poly_prism([(0, 0), (c['d'], -c['a']/2), (c['d'], c['a']/2)], -c['H']/2, c['H']/2, deg), c['p'])
    if s == 'tri_iso_prism2':
        x, y = c['R']*math.cos(c['h']), c['R']*math.sin(c['h'])
        return (c['H'], c['R'], c['p'], c['h']), turn(S.poly_prism([(0, 0), (x, -y), (x, y)], -c['H']/2, c['H']/2, deg), c['p'])
    if s == 'tri_prism':
        return (c['H'], c['d'], *c['y']), S.poly_prism([(0, 0), (c['d'], c['y'][0]), (c['d'], c['y'][1])], -c['H']/2, c['H']/2, deg)
    if s == 'rect_prism':
        return (c['H'], c['a'], c['b'], c['p']), S.poly_prism(S.rect(c['a'], c['b'], c['p']), -c['H']/2, c['H']/2, deg)
    if s == 'trapezoid':
        w2 = c['w']*c['f']
        return (c['t'], c['w'], w2, c['h']), S.poly_prism(S.trapezoid_poly(c['w'], w2, c['h']), -c['t']/2, c['t']/2, deg)
    if s == 'ngon_prism':
        return (c['H'], c['a'], c['p'], c['N']), S.poly_prism(S.ngon(c['N'], c['a'], c['p']), -c['H']/2, c['H']/2, deg)
    if s == 'tetrahedron':
        x, y, z = c['x'], c['y'], c['z']
        return (x, y, z), S.tet([(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)], deg)
    if s == 'tetrahedron2':
        x, y, z = c['x'], c['y'], c['z']
        return (x, *y, z), S.tet([(0, 0, 0), (x, y[0], 0), (x, y[1], 0), (0, 0, z)], deg)
    if s == 'pyramid':
        return (c['x'], c['y'], c['z']), S.pyramid(c['x'], c['y'], c['z'], deg)
    if s == 'cylhole':
        return (c['R']*c['f'], c['R']), S.cylhole(c['R']*c['f'], c['R'], deg, axis='y')
    if s == 'platehole':
        return (c['t'], c['r'], c['th']), S.platehole(c['t'], c['r'], c['th'], deg, frame='plate')
    return (c['H'], *c['r'], c['h']), S.cone_shell(c['H'], *c['r'], 0.0, c['h'], deg)


any_solid = st.sampled_from(sorted(SOLIDS)).flatmap(lambda s: SOLIDS[s].map(lambda c: dict(s=s, **c)))

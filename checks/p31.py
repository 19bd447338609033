from common import *
import octave
import newt.glib as glb
from p01 import pair, ref_ft, positions_differ

check = Check('P31', 'Pairs of point arrays (1-60 points, mixed-sign masses, scales 1e-3..1e3) passed to Octave; oracle: fsum of the '
              'Newtonian pair terms, and the Python routine on the same arrays.  Non-trivial: at least two pairs with different separations, positions not all on one axis.')


@check.clause(pair(), quick=2400, thorough=40000, shards=8)
def force_torque(c, ctx):
    A, B = arr(c['a']), arr(c['b'])
    f, t = ctx.call(octave.call, 'pointMatrixGravity', A, B, nargout=2)
    F, T, s, ts = ref_ft(c['a'], c['b'])
    ctx.nt(positions_differ(c['a'], c['b']))
    n = len(A)*len(B)
    tol, tolt = 1e-12*s+1e-300, 1e-12*ts+1e-300
    # separations down to 0.02 of coordinates of order 3 cost a few digits
    ctx.close(np.ravel(f), F, 100*tol, f'MATLAB pointMatrixGravity of {n} pairs: force')
    ctx.close(np.ravel(t), T, 100*tolt, f'MATLAB pointMatrixGravity of {n} pairs: torque')
    pf, pt = glb.point_matrix_gravity(A, B)
    ctx.close(np.ravel(f), pf, 200*tol, 'MATLAB against Python: force')
    ctx.close(np.ravel(t), pt, 200*tolt, 'MATLAB against Python: torque')


@check.clause(pair(), quick=800, thorough=10000, shards=4)
def on_one_mass(c, ctx):
    A, B = arr(c['a'])[:1], arr(c['b'])
    f = ctx.call(octave.call, 'Gmmr2Array', A, B)
    F, T, s, ts = ref_ft(c['a'][:1], c['b'])
    ctx.nt(len(B) > 1)
    ctx.close(np.ravel(f), F, 1e-10*s+1e-300, f'MATLAB Gmmr2Array with {len(B)} points')


@check.clause(pair(), quick=400, thorough=5000, shards=4)
def action_reaction(c, ctx):
    A, B = arr(c['a']), arr(c['b'])
    f, t = ctx.call(octave.call, 'pointMatrixGravity', A, B, nargout=2)
    g, u = ctx.call(octave.call, 'pointMatrixGravity', B, A, nargout=2)
    _, _, s, ts = ref_ft(c['a'], c['b'])
    _, _, _, us = ref_ft(c['b'], c['a'])
    ctx.nt(positions_differ(c['a'], c['b']))
    ctx.close(f, -g, 1e-10*s+1e-300, 'opposite forces')
    ctx.close(t, -u, 1e-10*(ts+us)+1e-300, 'opposite torques')

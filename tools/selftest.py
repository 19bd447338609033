"""setup_cmd: make sure what the checks need is importable, and that the
reference models agree with each other (they never import the toolkit)."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
import scipy.special as sp
import hypothesis
import ref

rng = np.random.default_rng(0)
p = rng.normal(size=(5, 3))
L = 12
R = ref.solid(L, p)
r = np.linalg.norm(p, axis=1)
th = np.arccos(p[:, 2]/r)
ph = np.arctan2(p[:, 1], p[:, 0])
for l in range(L+1):
    for m in range(-l, l+1):
        assert np.abs((R[l, L+m]-r**l*sp.sph_harm(m, l, ph, th))/r**l).max() < 1e-12
g = ref.solid_grad(L, p)
h = 1e-6
for k in range(3):
    d = np.zeros(3)
    d[k] = h
    n = (ref.solid(L, p+d)-ref.solid(L, p-d))/2/h
    assert np.abs(g[k]-n).max() < 1e-7*np.abs(n).max()
print('selftest ok: numpy', np.__version__, 'hypothesis', hypothesis.__version__)

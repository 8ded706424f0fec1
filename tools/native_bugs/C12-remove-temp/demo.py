import sys, os, tempfile
import numpy as np
from igakit.nurbs import NURBS, transform
from igakit import cad, io
from igakit import igalib
bsp, iga = igalib.bsp, igalib.iga
def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <= tol*(1+np.abs(b))))
def need(x, what):
    if not x:
        print('FAILED:', what); sys.exit(1)
rng = np.random.default_rng(7)

import subprocess
code = '''
import numpy as np
from igakit.igalib import bsp
p = 9
rng = np.random.default_rng(1)
U = np.array([0.]*(p+1) + [.5]*(p) + [1.]*(p+1))
P = rng.normal(size=(len(U)-p-1, 3000))
t, V, Q = bsp.RemoveKnot(p, U, P, .5, 1e300, p)
print(t, float(np.abs(Q).max()), float(np.abs(Q[:,2000:]).sum()))
C = np.repeat(P[:,:1], 3000, axis=1)
t, V, Q = bsp.RemoveKnot(p, U, C, .5, 1e300, p)
assert t == p, t
assert np.all(Q == Q[:,:1]), 'columns of equal data differ'
'''
r = subprocess.run([sys.executable, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
need(r.returncode == 0, 'knot removal: ' + r.stdout[-200:])

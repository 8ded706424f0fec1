import sys, os, tempfile
import numpy as np
from igakit.nurbs import NURBS, transform
from igakit import cad, io
from igakit import igalib
bsp, iga = igalib.bsp, igalib.iga
def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <= tol*(1+np.abs(b))))
def need(x, what):
    if not x:
        print('FAILED:', what); sys.exit(1)
rng = np.random.default_rng(7)

C = NURBS([[0,0,.5,1,1]], [[0,0],[.5,.5],[1,1]], fields=np.array([0.,1.,0.]))
U3 = [0,0,0,.5,1,1,1]
for U, P, F in [([0,0,.5,1,1], [[0,0],[.5,.5],[1,1]], [0.,1,0]),
                (U3, [[0,0],[.25,.25],[.75,.75],[1,1]], [0.,1,-1,0]),
                ([0,0,0,.5,.5,1,1,1], [[0,0],[.25,.25],[.5,.5],[.75,.75],[1,1]], [0.,1,5,-1,0])]:
    C = NURBS([U], P, fields=np.array(F))
    u = np.linspace(0,1,9); x = C(u, fields=True)[1]
    C.remove(0, .5, 1, 1e-6)
    need(near(C(u, fields=True)[1], x, 1e-5), 'remove keeps fields')

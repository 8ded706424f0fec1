import sys, os, tempfile
import numpy as np
from igakit.nurbs import NURBS, transform
from igakit import cad, io
from igakit import igalib
bsp, iga = igalib.bsp, igalib.iga
def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <= tol*(1+np.abs(b))))
def need(x, what):
    if not x:
        print('FAILED:', what); sys.exit(1)
rng = np.random.default_rng(7)

C = NURBS([[0,0,0,.5,1,1,1]], rng.normal(size=(4,3)))
u = np.linspace(0,1,33); x = C(u).copy()
C.insert(0, .5-1e-4, 1)
need(near(C(u), x), 'insert')

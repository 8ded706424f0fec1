import sys, os, tempfile
import numpy as np
from igakit.nurbs import NURBS, transform
from igakit import cad, io
from igakit import igalib
bsp, iga = igalib.bsp, igalib.iga
def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <= tol*(1+np.abs(b))))
def need(x, what):
    if not x:
        print('FAILED:', what); sys.exit(1)
rng = np.random.default_rng(7)

S = NURBS([[0,0,0,0,1,1,1,1]]*2, rng.normal(size=(4,4,3)))
D = S.derivative(3, S.points, .4, .3)
need(near(D, np.swapaxes(D, -1, -2)) and near(D, np.swapaxes(D, -2, -3)) and near(D, np.swapaxes(D, -1, -3)), 'symmetric')

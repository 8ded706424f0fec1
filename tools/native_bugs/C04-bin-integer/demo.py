import sys, os, tempfile
import numpy as np
from igakit.nurbs import NURBS, transform
from igakit import cad, io
from igakit import igalib
bsp, iga = igalib.bsp, igalib.iga
def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <= tol*(1+np.abs(b))))
def need(x, what):
    if not x:
        print('FAILED:', what); sys.exit(1)
rng = np.random.default_rng(7)

C = NURBS([[0,0,0,1,1,1]], rng.normal(size=(3,3)))
D = C.copy().elevate(0, 31)
need(near(C(.3), D(.3), 1e-6), 'value')

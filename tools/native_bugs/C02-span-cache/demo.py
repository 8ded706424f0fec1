import sys, os, tempfile
import numpy as np
from igakit.nurbs import NURBS, transform
from igakit import cad, io
from igakit import igalib
bsp, iga = igalib.bsp, igalib.iga
def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <= tol*(1+np.abs(b))))
def need(x, what):
    if not x:
        print('FAILED:', what); sys.exit(1)
rng = np.random.default_rng(7)

w = rng.uniform(.5,2,size=(3,3))
S = NURBS([[0,0,0,1,1,1]]*2, rng.normal(size=(3,3,3)), weights=w)
F = rng.normal(size=(3,3))
H_ = S.hessian(F, .4,.3)
h = 1e-4
f = lambda u,v: S.evaluate(F,u,v)
d = (f(.4+h,.3+h)-f(.4+h,.3-h)-f(.4-h,.3+h)+f(.4-h,.3-h))/(4*h*h)
need(near(H_[0,1], d, 1e-4) and near(H_[1,0], d, 1e-4), 'mixed derivative')

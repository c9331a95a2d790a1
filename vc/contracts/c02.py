from .base import *

def moved(R, t, p):
    """R*p + t"""
    c = [sel(p, i) for i in range(3)]
    return pt3(*[add(*([at1(t, i)] + [mul(tm.at(R, I(i), I(j)), c[j]) for j in range(3)])) for i in range(3)])

@contract('McCalib::transform3DPts', 'C02', shapes={1: M31, 2: M31})
def _(k):
    v = k.arg(0)
    R = rodr(k.arg(1)); t = k.arg(2)
    k.ret(collect(v.sort[1], drange(I(0), vlen(v)), lambda b: moved(R, t, vget(v, b))))

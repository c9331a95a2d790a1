from .base import *

def median_of(v):
    """middle order statistic; mean of the two middle ones for an even count; 0 for none"""
    n = vlen(v); s = mkraw('vsort', (v,), v.sort); h = idiv(n, I(2))
    return ite(eq(n, I(0)), Rl(0),
               ite(eq(imod(n, I(2)), I(0)), rdiv(add(vget(s, h), vget(s, sub(h, I(1)))), Rl(2)), vget(s, h)))

@contract('McCalib::median', 'C04', free=(0,))
def _(k): k.ret(median_of(k.arg(0)))

def avg_rotation(k, r1, r2, r3, quat):
    n = vlen(r1)
    Q = lambda b: mkraw('quat', (rodr(vec3(vget(r1, b), vget(r2, b), vget(r3, b))),), 'M')
    b = bvar('k', 'I')
    A = loops.finish(mat(M44, [Rl(0)] * 16), [(((b, drange(I(0), n)),), TRUE, 'madd', (mmul(mt(Q(b)), Q(b)),))])
    A = mscale(A, rinv(toreal(n)))
    U = exm.ogetf(mkraw('svd', (A,), ('O', 'cv::SVD')), 'u', 'M')
    q = mk(('arr', 4, 'R'), *[tm.at(U, I(i), I(0)) for i in range(4)])
    rq = rodrv(mkraw('rotq', (q,), 'M'))
    return ite(quat, rq, vec3(median_of(r1), median_of(r2), median_of(r3)))

@contract('McCalib::getAverageRotation', 'C04', free=(0, 1, 2))
def _(k):
    k.ret(avg_rotation(k, k.arg(0), k.arg(1), k.arg(2), k.arg(3)))

def avg_translation(ts): return vec3(*[median_of(t) for t in ts])

def average_pose(k, poses, quat):
    """the configured robust average of a list of 4x4 poses"""
    n = vlen(poses)
    R = lambda i: collect('R', drange(I(0), n), lambda b: tm.at(rodrv(rot3(vget(poses, b))), I(i), I(0)))
    X = lambda i: collect('R', drange(I(0), n), lambda b: tm.at(trn3(vget(poses, b)), I(i), I(0)))
    return rt4(rodr(avg_rotation(k, R(0), R(1), R(2), quat)), avg_translation([X(0), X(1), X(2)]))

@contract('McCalib::Calibration::initInterTransform', ['C04', 'C09'], shapes={0: M44})
def _(k):
    pp = k.arg(0)
    k.let('m', mnil(pp.sort[1], 'M'))
    q = k.f('quaternion_averaging_')
    def put(k, key, poses): k.let('m', mput(k.get('m'), key, average_pose(k, poses, q)))
    k.over(pp, put)
    k.setarg(1, k.get('m'))

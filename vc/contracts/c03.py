from .base import *
q = {n: sym('q' + n, 'R') for n in 'xyzw'}
def m2(a, b): return mul(Rl(2), a, b)
def rotq(x, y, z, w):
    """the standard rotation matrix of the unit quaternion (x, y, z, w)"""
    one = Rl(1)
    return mat(M33, [sub(one, add(m2(y, y), m2(z, z))), sub(m2(x, y), m2(z, w)), add(m2(x, z), m2(y, w)),
                     add(m2(x, y), m2(z, w)), sub(one, add(m2(x, x), m2(z, z))), sub(m2(y, z), m2(x, w)),
                     sub(m2(x, z), m2(y, w)), add(m2(y, z), m2(x, w)), sub(one, add(m2(x, x), m2(y, y)))])
def unit(x, y, z, w): return eq(add(mul(x, x), mul(y, y), mul(z, z), mul(w, w)), Rl(1))

tm.SHAPE_RULES['quat'] = lambda M: (1, 4, 'd')
def post_r2q(k, Q):
    e = [tm.at(Q, I(0), I(i)) for i in range(4)]
    R = k.arg(0); S = rotq(*e)
    g = [('unit norm', unit(*e))]
    for i in range(3):
        for j in range(3):
            g.append(('rotation of the quaternion, entry (%d,%d)' % (i, j), eq(tm.at(S, I(i), I(j)), tm.at(R, I(i), I(j)))))
    return g

# every rotation matrix is the standard matrix of some unit quaternion (trusted
# mathematical fact): the input ranges over all rotation matrices
@contract('McCalib::convertRotationMatrixToQuaternion', ['C03', 'C04'], shapes={0: M33},
          inputs={0: rotq(q['x'], q['y'], q['z'], q['w'])}, given=[unit(q['x'], q['y'], q['z'], q['w'])], post=post_r2q, divide=Fraction(1, 10))
def _(k): k.ret(mkraw('quat', (k.arg(0),), 'M'))

A4 = ('arr', 4, 'R')
def post_q2r(k, M):
    v = k.arg(0)
    S = rotq(*[sel(v, i) for i in range(4)])
    return [('entry (%d,%d)' % (i, j), eq(tm.at(M, I(i), I(j)), tm.at(S, I(i), I(j)))) for i in range(3) for j in range(3)]
@contract('McCalib::convertQuaternionToRotationMatrix', ['C03', 'C04'],
          given=lambda a: [unit(*[sel(a[0], i) for i in range(4)])], post=post_q2r)
def _(k):
    v = k.arg(0)
    k.ret(mkraw('rotq', (v,), 'M'))
tm.SHAPE_RULES['rotq'] = lambda M: (3, 3, 'd')

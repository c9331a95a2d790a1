"""C06: the residual of a cost function is the predicted pixel minus the observed one.

The contract is on Create, the only way the code makes a cost function: the body of Create, the functor's
constructor and its operator() are executed one after the other on symbolic arguments and parameter blocks, and
both residuals must be the specified projection.  Callers of Create see cost(class, arguments)."""
from .base import *
from front import freeze
import libext

def rigid(p6, x):
    """R(p6)*x + t"""
    return [add(sel(p6, 3 + i), y) for i, y in enumerate(libext.rotated([sel(p6, i) for i in range(3)], x))]
def pixel(X, f, c, k, model):
    """pinhole image of the camera-frame point X; f, c focal lengths and principal point, k = Brown (k1,k2,p1,p2,k3)
    or equidistant (k1..k4) in that order"""
    x, y = rdiv(X[0], X[2]), rdiv(X[1], X[2])
    r2 = add(mul(x, x), mul(y, y))
    rad = add(Rl(1), mul(k[0], r2), mul(k[1], r2, r2), mul(k[4], r2, r2, r2))
    bx = add(mul(x, rad), mul(Rl(2), k[2], x, y), mul(k[3], add(r2, mul(Rl(2), x, x))))
    by = add(mul(y, rad), mul(k[2], add(r2, mul(Rl(2), y, y))), mul(Rl(2), k[3], x, y))
    r = lib_.Lib().pure('sqrt', [r2], 'R'); th = lib_.Lib().pure('atan', [r], 'R')
    pw = lambda n: mul(*[th] * n)
    td = add(th, mul(k[0], pw(3)), mul(k[1], pw(5)), mul(k[2], pw(7)), mul(k[3], pw(9)))
    s = ite(lt(Rl(Fraction(1, 10**8)), r), rdiv(td, r), Rl(1))
    fish = eq(model, I(1))
    return [add(mul(f[0], ite(fish, mul(x, s), bx)), c[0]), add(mul(f[1], ite(fish, mul(y, s), by)), c[1])]
def residual(obs, X, f, c, k, model): return [sub(p, o) for p, o in zip(pixel(X, f, c, k, model), obs)]

# intrinsics block of nine numbers: fx fy u0 v0, then Brown k1 k2 p1 p2 k3 or equidistant k1..k4
def intr(v): return [sel(v, 0), sel(v, 1)], [sel(v, 2), sel(v, 3)], [sel(v, i) for i in range(4, 9)]
# scalar arguments fx fy u0 v0 k1 k2 k3 p1 p2 at positions 5..13 (fisheye: k1 k2 p1 p2 carry k1..k4)
def scal(a): return [a[5], a[6]], [a[7], a[8]], [a[9], a[10], a[12], a[13], a[11]]
def maybe(flag, p6, x): return [ite(flag, a, b) for a, b in zip(rigid(p6, x), x)]

FUNCTORS = {
 # class: (block sizes, residual(create arguments, blocks))
 'ReprojectionError': ((6, 9), lambda a, b: residual(a[0:2], rigid(b[0], a[2:5]), *intr(b[1]), a[5])),
 'ReprojectionError_3DObjRef': ((6, 6), lambda a, b: residual(a[0:2], rigid(b[0], maybe(a[14], b[1], a[2:5])), *scal(a), a[15])),
 'ReprojectionError_CameraGroupRef': ((6, 6), lambda a, b: residual(a[0:2], maybe(a[14], b[0], rigid(b[1], a[2:5])), *scal(a), a[15])),
 'ReprojectionError_CameraGroupAndObjectRef': ((6, 6, 6),
    lambda a, b: residual(a[0:2], maybe(a[14], b[0], rigid(b[1], maybe(a[15], b[2], a[2:5]))), *scal(a), a[16])),
 'ReprojectionError_CameraGroupAndObjectRefAndIntrinsics': ((6, 6, 6, 9),
    lambda a, b: residual(a[0:2], maybe(a[5], b[0], rigid(b[1], maybe(a[6], b[2], a[2:5]))), *intr(b[3]), a[7])),
}
def register(cls, sizes, res):
    def after(ex, st, k, v):
        if not (isinstance(v, T) and v.op == 'autodiff'): raise Unsupported('Create does not return an automatically differentiated cost function')
        fun, dims, ref = v.args[0], v.args[1:-1], v.args[-1]
        out = [('number of residuals and sizes of the parameter blocks', Bv(tuple(dims) == (2,) + sizes), TRUE)]
        if tuple(dims) != (2,) + sizes: return out
        op = [F for F in ex.prog.byname.get('%s::operator()' % fun, []) if all(freeze(p[2]) == ('*', 'double') for p in F['params'])]
        if not op: raise Unsupported('no residual function of %s' % fun)
        vals, blocks = [], []
        for i, n in enumerate(sizes + (2,)):
            so = ('arr', n, 'R')
            key = ('v', 'block', i)
            st.d[key] = sym('block%d' % i, so)
            blocks.append(st.d[key])
            vals.append(Ptr(Loc(key, (), so), I(0)))
        fr = ex.new_frame(ref, op[0])
        ex.bind_params(st, fr, op[0], vals)
        ex.run_body(st, fr, op[0])
        got = st.d[('v', 'block', len(sizes))]
        want = res([k.arg(i) for i in range(len(k.vals))], blocks)
        for i in range(len(sizes)): out.append(('parameter block %d unchanged' % i, st.d[('v', 'block', i)], blocks[i]))
        return out + [('residual %s' % 'xy'[i], sel(got, i), want[i]) for i in range(2)]
    def fn(k): k.ret(mkraw('cost', (cls,) + tuple(k.arg(i) for i in range(len(k.vals))), 'Ref'))
    def model_ok(k):
        m = k.arg(len(k.vals) - 1)
        return or_(eq(m, I(0)), eq(m, I(1)))
    contract(cls + '::Create', ['C06', 'C07'], after=after, private=(cls,), inv=('the lens model of a camera is 0 (Brown) or 1 (Kannala)', model_ok))(fn)
for _c, (_s, _r) in FUNCTORS.items(): register(_c, _s, _r)

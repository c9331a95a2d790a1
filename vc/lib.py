"""Trusted models of the library functions the repository calls (STL, OpenCV,
Boost, Ceres).  Every model used by a proof is listed in the evidence as part of
the trusted base."""
from terms import *
import terms as tm
from exec import *
import exec as exm

# deterministic pure functions, left uninterpreted
PURE = {'sqrt': 'sqrt', 'std::sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'std::sin': 'sin', 'std::cos': 'cos', 'atan': 'atan', 'std::atan': 'atan',
        'atan2': 'atan2', 'std::atan2': 'atan2', 'acos': 'acos', 'std::acos': 'acos', 'asin': 'asin', 'std::asin':'asin', 'exp': 'exp', 'log': 'log', 'std::log': 'log', 'std::exp': 'exp',
        'round': 'round', 'std::round': 'round', 'floor': 'floor', 'std::floor': 'floor', 'ceil': 'ceil', 'std::ceil': 'ceil',
        'lround': 'round', 'std::isinf': 'isinf', 'std::isnan': 'isnan', 'tan': 'tan', 'std::tan': 'tan', 'cvRound': 'round'}

SHAPE_RULES = tm.SHAPE_RULES
SHAPE_RULES['rodr'] = lambda M: (3, 3, 'd')
SHAPE_RULES['rodrv'] = lambda M: (3, 1, 'd')
SHAPE_RULES['rt4'] = lambda M: (4, 4, 'd')
SHAPE_RULES['rot3'] = lambda M: (3, 3, 'd')
SHAPE_RULES['trn3'] = lambda M: (3, 1, 'd')
def _minv_shape(M):
    s = shape(M.args[0]); return s
SHAPE_RULES['minv'] = _minv_shape
def _mt_shape(M):
    s = shape(M.args[0]); return (s[1], s[0], s[2]) if s else None
SHAPE_RULES['mt'] = _mt_shape
def _mmul_shape(M):
    a, b = shape(M.args[0]), shape(M.args[-1])
    return (a[0], b[1], a[2]) if a and b else None
SHAPE_RULES['mmul'] = _mmul_shape
SHAPE_RULES['madd'] = lambda M: shape(M.args[0])
SHAPE_RULES['mscale'] = lambda M: shape(M.args[0])
SHAPE_RULES['mset'] = lambda M: shape(M.args[0])
def _ite_shape(M):
    a, b = shape(M.args[1]), shape(M.args[2])
    return a if a == b else None
SHAPE_RULES['ite'] = _ite_shape

def rodr(v):
    """rotation matrix of a rotation vector (cv::Rodrigues, trusted)"""
    if v.op == 'rodrv': return v.args[0]
    if v.op == 'ite': return ite(v.args[0], rodr(v.args[1]), rodr(v.args[2]))
    s = shape(v)
    if v.op == 'mat' and s[:2] == (1, 3): v = mat((3, 1, s[2]), v.args[1:])
    if v.op == 'mat' and s[:2] == (3, 1) and all(isnum(x) and x.args[0] == 0 for x in v.args[1:]): return eye(3)
    # literal vector made of the entries of rodrv(R)
    if v.op == 'mat' and len(v.args) == 4:
        e = v.args[1]
        if e.op == 'at' and e.args[0].op == 'rodrv' and all(x.op == 'at' and x.args[0] is e.args[0] and x.args[1] is I(k) for k, x in enumerate(v.args[1:])):
            return e.args[0].args[0]
    return mkraw('rodr', (v,), 'M')
def rodrv(R):
    if R.op == 'rodr': return R.args[0] 
    if is_eye(R): return mat((3, 1, 'd'), [Rl(0)] * 3)
    if R.op == 'ite': return ite(R.args[0], rodrv(R.args[1]), rodrv(R.args[2]))
    return mkraw('rodrv', (R,), 'M')
tm.REBUILD['rodr'] = lambda a, s: rodr(a[0])
tm.REBUILD['rodrv'] = lambda a, s: rodrv(a[0])

def rt4(R, t):
    """[R t; 0 0 0 1]"""
    s = shape(t)
    if t.op == 'mat' and s[:2] == (1, 3): t = mat((3, 1, s[2]), t.args[1:])
    if R.op == 'rot3' and (t.op == 'trn3' and t.args[0] is R.args[0]): return R.args[0]
    if R.op == 'rot3' and t.op == 'mat' and all(x is at(R.args[0], I(k), I(3)) or x is mkraw('at', (mkraw('trn3', (R.args[0],), 'M'), I(k), I(0)), 'R') for k, x in enumerate(t.args[1:])): return R.args[0]
    if is_eye(R) and t.op == 'mat' and all(isnum(x) and x.args[0] == 0 for x in t.args[1:]): return eye(4)
    return mkraw('rt4', (R, t), 'M')
def rot3(P):
    if P.op == 'rt4': return P.args[0]
    if is_eye(P): return eye(3)
    if P.op == 'ite': return ite(P.args[0], rot3(P.args[1]), rot3(P.args[2]))
    if P.op == 'mat' and P.args[0][:2] == (4, 4):
        return mat((3, 3, P.args[0][2]), [P.args[1 + i * 4 + j] for i in range(3) for j in range(3)])
    return mkraw('rot3', (P,), 'M')
def trn3(P):
    if P.op == 'rt4': return P.args[1]
    if P.op == 'ite': return ite(P.args[0], trn3(P.args[1]), trn3(P.args[2]))
    if P.op == 'mat' and P.args[0][:2] == (4, 4):
        return mat((3, 1, P.args[0][2]), [P.args[1 + i * 4 + 3] for i in range(3)])
    return mkraw('trn3', (P,), 'M')
tm.REBUILD['rt4'] = lambda a, s: rt4(*a)
tm.REBUILD['rot3'] = lambda a, s: rot3(*a)
tm.REBUILD['trn3'] = lambda a, s: trn3(*a)
_at0 = tm.at
def at(M, i, j):
    if M.op in ('rt4', 'rot3', 'trn3', 'rodrv') and i.op == 'int' and j.op == 'int':
        r, c = i.args[0], j.args[0]
        if M.op == 'rt4':
            if r == 3: return Rl(1 if c == 3 else 0)
            if c == 3:
                t = M.args[1]
                return _at0(t, I(r), I(0)) if (shape(t) or (3, 1))[1] == 1 else _at0(t, I(0), I(r))
            return at(M.args[0], i, j)
        if M.op == 'rot3': return at(M.args[0], i, j)
        if M.op == 'trn3': return at(M.args[0], i, I(3))
    return _at0(M, i, j)
tm.at = at
exm.at = at
tm.REBUILD['at'] = lambda a, s: at(*a)
def entries(M):
    if M.op == 'mat': return M
    s = shape(M)
    if s is None: return None
    r, c, d = s
    return mkraw('mat', (s,) + tuple(at(M, I(i), I(j)) for i in range(r) for j in range(c)), 'M')
tm.entries = entries

def _mat44(shape_, e):
    d = shape_[2]
    if all(isnum(x) for x in e): return mkraw('mat', (shape_,) + tuple(e), 'M')
    R = mat((3, 3, d), [e[4 * i + j] for i in range(3) for j in range(3)])
    t = mat((3, 1, d), [e[4 * i + 3] for i in range(3)])
    r = rt4(R, t)
    SHAPES.setdefault(r, shape_)
    return r
tm.MAT44 = _mat44

class Lib:
    def __init__(self, ex=None): pass

    # ------------------------------------------------------------ construct
    def construct(self, ex, st, ty, vals, kind, sg):
        so = sort_of(ty)
        h = ty if isinstance(ty, str) else ty[0]
        if kind in ('copy', 'move') and len(vals) == 1:
            v = vals[0]
            if isinstance(v, Loc) and v.sort == 'M': return ex.hdr(st, v)
            x = ex.val(st, v)
            return ex.coerce(x, so) if isinstance(x, T) else x
        if h == 'lambda': return vals[0]
        if h in ('cv::Mat',): return self.mat_ctor(ex, st, vals, sg, kind)
        if h == 'cv::Mat_':
            if len(vals) == 2:
                a, b = [ex.term(st, v) for v in vals]
                if a.sort == 'I' and b.sort == 'I' and a.op == 'int' and b.op == 'int':
                    d = {'double': 'd', 'float': 'f'}.get(ty[1], 'i')
                    return mat((a.args[0], b.args[0], d), [fresh('undef', 'R') for _ in range(a.args[0] * b.args[0])])
            if len(vals) == 1:
                v = ex.val(st, vals[0])
                if isinstance(v, Comma): return self.comma_mat(v)
                if isinstance(v, T) and v.sort == 'M': return ex.hdr(st, vals[0])
            if not vals: return default('M')
        if h in ('std::shared_ptr', 'std::weak_ptr', 'cv::Ptr', 'std::unique_ptr'):
            if not vals: return NULL
            v = ex.val(st, vals[0])
            if isinstance(v, Obj): return v.ref
            return v
        if h == 'std::vector': return self.vec_ctor(ex, st, so, vals, ty)
        if h in ('std::map', 'std::unordered_map'):
            if not vals: return default(so)
            v = ex.val(st, vals[0])
            if isinstance(v, T) and v.sort[0] == 'arr':
                m = default(so)
                for i in range(nfields(v.sort)):
                    e = sel(v, i)
                    m = mins(m, sel(e, 0), sel(e, 1))
                return m
        if h in ('std::set', 'std::unordered_set'):
            m = default(so)
            if not vals: return m
            v = ex.val(st, vals[0])
            if isinstance(v, T) and v.sort[0] == 'arr':
                for i in range(nfields(v.sort)): m = mkraw('sins', (m, sel(v, i)), so)
                return m
            if isinstance(v, Iter) and len(vals) >= 2:
                return mkraw('setof', (ex.val(st, v.loc),), so)
        if h == 'std::pair':
            if not vals: return default(so)
            if len(vals) == 2:
                return mk(so, *[ex.coerce(ex.term(st, v), so[2 + i]) for i, v in enumerate(vals)])
            v = ex.term(st, vals[0])
            return ex.coerce(v, so)
        if h in ('cv::Point_', 'cv::Point3_', 'cv::Size_'):
            if not vals: return default(so)
            if len(vals) == nfields(so):
                return mk(so, *[self.clip(ex, ex.coerce(ex.term(st, v), fsort(so, i))) for i, v in enumerate(vals)])
            v = ex.term(st, vals[0])
            if v.sort == so: return v
            if isinstance(v.sort, tuple) and v.sort[0] in ('st', 'arr') and nfields(v.sort) == nfields(so):
                return ex.coerce(v, so)
            if v.sort == 'M':
                return mk(so, *[ex.at1(v, I(i)) for i in range(nfields(so))])
        if h == 'cv::Scalar_':
            fs = [toreal(ex.term(st, v)) for v in vals]
            if len(fs) == 1 and isinstance(fs[0].sort, tuple): return fs[0]
            return mk(so, *(fs + [Rl(0)] * (4 - len(fs))))
        if h in ('cv::Vec', 'std::array'):
            if not vals: return default(so)
            if len(vals) == so[1] and so[1] > 1: return mk(so, *[ex.coerce(ex.term(st, v), so[2]) for v in vals])
            v = ex.val(st, vals[0])
            if isinstance(v, T) and isinstance(v.sort, tuple): return ex.coerce(v, so)
            if isinstance(v, T) and len(vals) == so[1]: return mk(so, ex.coerce(v, so[2]))
        if h == 'cv::Matx' :
            n, m = ty[2], ty[3]
            if len(vals) == n * m: return mat((n, m, 'd'), [toreal(ex.term(st, v)) for v in vals])
            if not vals: return mat((n, m, 'd'), [Rl(0)] * (n * m))
        if h in ('cv::_InputArray', 'cv::_OutputArray', 'cv::_InputOutputArray', 'cv::_InputOutputArray'):
            return vals[0] if vals else Py('noarray')
        if h == 'std::basic_string':
            if not vals: return default('S')
            v = ex.val(st, vals[0])
            if isinstance(v, T) and v.sort == 'S': return v
            if isinstance(v, T) and v.sort[0] == 'O': return mkraw('tostr', (v,), 'S')
        if h == 'std::filesystem::path':
            if not vals: return default('S')
            return ex.term(st, vals[0])
        if h in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator') and vals:
            return ex.val(st, vals[0])
        if h in POD: return self.construct_pod(ex, st, h, so, vals, sg)
        if h in LOCKS: return Py('lock', shared=ex.monitor is not None and bool(ex.monitor.lock(ex, st, vals)))
        if h == 'cv::Range':
            return mk(('st', 'Range', 'I', 'I'), *[ex.term(st, v) for v in vals])
        if h == 'cv::Rect_':
            return mk(('st', 'Rect', 'I', 'I', 'I', 'I'), *[ex.as_int(ex.term(st, v)) for v in vals])
        if h == 'cv::FileStorage':
            return self.fs_ctor(ex, st, vals)
        if h in OPAQUE_CTOR or h.startswith('std::random') or h.startswith('std::uniform') or h.startswith('std::mersenne'):
            args = []
            for v in vals:
                x = ex.val(st, v)
                if isinstance(x, Ptr): x = ex.addr(st, x)
                if isinstance(x, T): args.append(x)
            ex.trusted.add(h)
            return mkraw('ctor', (h,) + tuple(args), so if so != 'Ref' else 'Ref')
        if not vals and isinstance(so, tuple) and so[0] == 'O': return mkraw('ctor', (h,), so)
        r = self.construct_ext(ex, st, ty, h, so, vals, kind, sg)
        if r is not None: return r
        raise Unsupported('constructor of %s (%d args)' % (ty, len(vals)))

    def construct_pod(self, ex, st, h, so, vals, sg):
        """a value type of the library: the member initialisers of its constructor, other members undefined"""
        if len(vals) == 1 and isinstance(ex.val(st, vals[0]), T) and ex.val(st, vals[0]).sort == so: return ex.val(st, vals[0])
        F = ex.prog.find(h + '::' + h.split('::')[-1], sg, len(vals))
        fr = ex.new_frame(None, F)
        inits = {}
        if F is not None:
            ex.bind_params(st, fr, F, vals)
            inits = {i[0]: i for i in F['inits'] if i[3]}
            if F['body'] and F['body'][-1]: raise Unsupported('constructor of %s with a body: %s' % (h, F['body']))
        elif vals: raise Unsupported('constructor of %s' % h)
        fs = []
        for (f, t, init), s in zip(ex.prog.records[h], so[2:]):
            if f in inits: fs.append(ex.coerce(ex.term(st, ex.ev(st, fr, inits[f][1])), s))
            elif init is not None: fs.append(ex.coerce(ex.term(st, ex.ev(st, fr, init)), s))
            else: fs.append(mkraw('undef', (h, f), s))
        return mk(so, *fs)

    def construct_ext(self, ex, st, ty, h, so, vals, kind, sg): return None

    def draw(self, ex, st, x, so):
        """one draw from a distribution (a uniform integer lies between its bounds)"""
        if x.op == 'ctor' and x.args[0] == 'std::uniform_int_distribution' and len(x.args) == 3:
            lo, hi = x.args[1:]
            if ex.bounds: ex.checks.append(('there is something to draw from', st.pc, le(lo, hi)))
            return mkraw('draw', (ex.rnd(), lo, hi), so)
        return mkraw('draw', (ex.rnd(),), so)

    def clip(self, ex, t): return t

    def fs_ctor(self, ex, st, vals):
        if not vals: return mkraw('ctor', ('cv::FileStorage',), ('O', 'cv::FileStorage'))
        args = [ex.term(st, v) for v in vals]
        return mkraw('fsopen', (args[0], args[1]), ('O', 'cv::FileStorage'))

    def vec_ctor(self, ex, st, so, vals, ty):
        if not vals: return vnil(so[1])
        v = ex.val(st, vals[0])
        if isinstance(v, Iter) and len(vals) >= 2:
            w = ex.val(st, vals[1])
            return self.vec_range(ex, st, v, w, so)
        if isinstance(v, Ptr) and len(vals) >= 2:
            w = ex.val(st, vals[1])
            n = sub(w.off, v.off)
            if n.op == 'int':
                return vlit(so[1], [ex.coerce(ex.term(st, ex.index(st, v, I(i))), so[1]) for i in range(n.args[0])])
        if isinstance(v, T) and isinstance(v.sort, tuple) and v.sort[0] == 'arr':
            return vlit(so[1], [ex.coerce(sel(v, i), so[1]) for i in range(nfields(v.sort))])
        if isinstance(v, Py) and v.kind == 'list': 
            return Py('list', items=v.items)
        if isinstance(v, T) and v.sort == 'I':
            if len(vals) >= 2:
                x = ex.val(st, vals[1])
                if isinstance(x, T) and x.sort != ('O', "('std::allocator',)"):
                    x = ex.coerce(x, so[1])
                    if x.sort == so[1]: return vrep(v, x)
            return vrep(v, default(so[1]))
        if isinstance(v, T) and v.sort == so: return v
        if isinstance(v, T) and v.sort[0] == 'vec': return ex.coerce(v, so)
        raise Unsupported('vector constructor')

    def vec_range(self, ex, st, a, b, so):
        """elements of [a, b)"""
        if a.kind == 'vec':
            v = ex.val(st, a.loc)
            full = a.pos.op == 'int' and a.pos.args[0] == 0 and b.pos is vlen(v)
            if full: return ex.coerce(v, so)
            n = sub(b.pos, a.pos)
            if n.op == 'int': return vlit(so[1], [vget(v, add(a.pos, I(i))) for i in range(max(n.args[0], 0))])
            k = bvar('k', 'I')
            return acc(vnil(so[1]), [(((k, drange(a.pos, b.pos)),), TRUE, 'push', (vget(v, k),))])
        if a.kind == 'arr':
            v = ex.val(st, a.loc); n = sub(b.pos, a.pos)
            if n.op == 'int': return vlit(so[1], [asel(v, add(a.pos, I(i))) for i in range(n.args[0])])
        if a.kind in ('map', 'set'):
            m = ex.val(st, a.loc)
            if a.pos.op == 'mbegin' and b.pos.op == 'mend':
                ks = m.sort[1]
                k = bvar('k', ks)
                if a.kind == 'set': el = k
                else: el = mk(('st', 'pair', ks, m.sort[2]), k, mget(m, k))
                return acc(vnil(so[1]), [(((k, dkeys(m)),), TRUE, 'push', (el,))])
        raise Unsupported('vector from iterators')

    def mat_ctor(self, ex, st, vals, sg, kind):
        if not vals: return default('M')
        v0 = ex.val(st, vals[0])
        if isinstance(v0, Comma): return self.comma_mat(v0)
        if isinstance(v0, T) and v0.sort == 'M' and len(vals) == 1: return ex.hdr(st, vals[0])
        if isinstance(v0, T) and v0.sort == 'M':
            # sub-matrix header
            rs = [ex.term(st, v) for v in vals[1:]]
            return self.sublv(ex, st, vals[0], rs)
        if isinstance(v0, T) and v0.sort == 'I' and len(vals) >= 3:
            r, c = v0, ex.term(st, vals[1]); t = ex.term(st, vals[2])
            if r.op == 'int' and c.op == 'int' and r.args[0] * c.args[0] <= 256:
                n = r.args[0] * c.args[0]
                sh = (r.args[0], c.args[0], depth_of(t))
                if len(vals) >= 4:
                    f = ex.val(st, vals[3])
                    if isinstance(f, (Ptr,)):
                        return mat(sh, [toreal(ex.term(st, ex.index(st, f, I(i)))) for i in range(n)])
                    if isinstance(f, Py) and f.kind == 'addrloc': raise Unsupported('Mat over raw storage')
                    f = ex.term(st, vals[3])
                    f0 = sel(f, 0) if isinstance(f.sort, tuple) else toreal(f)
                    return mat(sh, [f0] * n)
                return mat(sh, [fresh('undef', 'R') for _ in range(n)])
            fill = ex.val(st, vals[3]) if len(vals) >= 4 else None
            if fill is None: return mkraw('mundef', (r, c, t), 'M')
            if isinstance(fill, T): return mkraw('mfill', (r, c, t, fill), 'M')
        if isinstance(v0, T) and isinstance(v0.sort, tuple) and v0.sort[0] == 'st' and v0.sort[1] == 'Size':
            return mkraw('mundef', (sel(v0, 1), sel(v0, 0)) + tuple(ex.term(st, v) for v in vals[1:]), 'M')
        if isinstance(v0, T) and isinstance(v0.sort, tuple):
            # matrix from a vector / point / Vec
            if v0.sort[0] in ('st', 'arr') and nfields(v0.sort) <= 16:
                n = nfields(v0.sort)
                return mat((n, 1, 'd'), [toreal(sel(v0, i)) for i in range(n)])
            if v0.sort[0] == 'vec':
                import loops
                xs = loops.concrete_vec(v0)
                if xs is not None and v0.sort[1] == 'R': return mat((len(xs), 1, 'd'), xs)
                return mkraw('matof', (v0,), 'M')
        raise Unsupported('cv::Mat constructor')

    def submat(self, ex, M, rs):
        if len(rs) == 2 and M.op == 'mat' and all(r.op == 'mk:Range' and r.args[0].op == 'int' and r.args[1].op == 'int' for r in rs):
            R, C, d = M.args[0]
            r0, r1 = [x.args[0] for x in rs[0].args]; c0, c1 = [x.args[0] for x in rs[1].args]
            return mat((r1 - r0, c1 - c0, d), [at(M, I(i), I(j)) for i in range(r0, r1) for j in range(c0, c1)])
        E = entries(M)
        if E is not None and len(rs) == 2 and E is not M: return self.submat(ex, E, rs)
        return mkraw('submat', (M,) + tuple(rs), 'M')

    def sublv(self, ex, st, o, rs):
        """M(rows, cols) of an lvalue is itself an lvalue (a view of the same buffer)"""
        if len(rs) == 1 and rs[0].op == 'mk:Rect':
            x, y, w, h = rs[0].args
            rg = ('st', 'Range', 'I', 'I')
            rs = [mk(rg, y, add(y, h)), mk(rg, x, add(x, w))]
        if isinstance(o, Loc) and len(rs) == 2 and all(r.op == 'mk:Range' for r in rs):
            return Loc(o.root, o.path + (('sub', rs[0], rs[1]),), 'M')
        return self.submat(ex, ex.val(st, o), rs)

    def comma_mat(self, c):
        r, k, d = c.shape
        if len(c.vals) != r * k: raise Unsupported('comma initialiser with %d of %d entries' % (len(c.vals), r * k))
        return mat(c.shape, [toreal(x) for x in c.vals])

    # ------------------------------------------------------------ operators
    def obj_binop(self, ex_self, st, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == '-': return sub(a.off, b.off)
            if op in ('==', '!='):
                r = eq(a.off, b.off) if a.loc == b.loc else FALSE
                return r if op == '==' else not_(r)
        if isinstance(a, (Ptr, Obj)) and b is NULL: return FALSE if op == '==' else TRUE
        return None

    def op(self, ex, st, op, name, vals, so, sg, ty):
        a = vals[0]
        if op == '->':
            v = ex.val(st, a)
            if isinstance(v, Iter): return v
            return v
        if op == '*' and len(vals) == 1:
            v = ex.val(st, a)
            if isinstance(v, Iter): return ex.iter_deref(st, v)
            if isinstance(v, T) and v.sort == 'Ref':
                return Obj(v, strip_ref(ty))
            raise Unsupported('operator* on %s' % type(v).__name__)
        if op == '=' and isinstance(ex.val(st, a), Py) and ex.val(st, a).kind == 'tie':
            r = ex.term(st, vals[1])
            items = ex.val(st, a).items
            if not (isinstance(r.sort, tuple) and r.sort[0] == 'st' and nfields(r.sort) == len(items)): raise Unsupported('assignment to std::tie')
            for i, o in enumerate(items):
                if isinstance(o, Loc): self.assign(ex, st, o, sel(r, i), name)
            return a
        if op == '=' :
            return self.assign(ex, st, a, vals[1], name)
        if op == '[]': return self.subscript(ex, st, a, vals[1], name)
        if op in ('++', '--'):
            it = ex.val(st, a)
            if isinstance(it, Iter):
                d = 1 if op == '++' else -1
                if it.kind in ('vec', 'arr'): nv = Iter(it.loc, it.kind, add(it.pos, I(d)))
                else: nv = Iter(it.loc, it.kind, mkraw('mnext' if d > 0 else 'mprev', (it.pos,), it.pos.sort))
                if isinstance(a, Loc): st.d[a.root] = nv
                return nv if len(vals) == 1 else it
        if op == '<<':
            return self.shift(ex, st, a, vals[1], name, so)
        if op == '>>':
            return self.shift_in(ex, st, a, vals[1], name, so)
        if op == ',':
            x = ex.val(st, a)
            if isinstance(x, Comma):
                return Comma(x.shape, x.vals + [ex.term(st, vals[1])])
        x = ex.val(st, a)
        y = ex.val(st, vals[1]) if len(vals) > 1 else None
        if isinstance(x, Comma): x = self.comma_mat(x)
        if isinstance(y, Comma): y = self.comma_mat(y)
        if isinstance(x, Iter) or isinstance(y, Iter): return self.iter_op(ex, st, op, x, y, a)
        if isinstance(x, Py) or isinstance(y, Py):
            r = self.op_ext(ex, st, op, name, x, y, vals, so)
            if r is not None: return r
            raise Unsupported('operator %s (%s)' % (op, name))
        if y is None:
            if op == '()' and isinstance(x.sort, tuple) and x.sort[0] == 'O' and so in ('I', 'R', 'B'): return self.draw(ex, st, x, so)
            if op == '-':
                if x.sort == 'M': return mscale(x, Rl(-1))
                if isinstance(x.sort, tuple) and x.sort[0] in ('st', 'arr'):
                    return mk(x.sort, *[neg(sel(x, i)) for i in range(nfields(x.sort))])
                return neg(x)
            raise Unsupported('unary operator ' + op)
        if op in ('+=', '-=', '*=', '/='):
            r = self.arith(ex, st, op[0], x, y)
            if isinstance(a, Loc) and a.sort == 'M': ex.mat_inplace(st, a, r)
            else: ex.write(st, a, r)
            return a
        if op in ('+', '-', '*', '/'):
            return self.arith(ex, st, op, x, y, name)
        if op in ('==', '!='):
            if x.sort == 'Ref' or y.sort == 'Ref':
                return ex.binop(st, op, x, y)
            r = eq(x, y)
            return r if op == '==' else not_(r)
        if op in ('<', '>', '<=', '>='):
            if x.sort in ('I', 'R') and y.sort in ('I', 'R'): return ex.binop(st, op, x, y)
            if isinstance(x.sort, tuple) and x.sort[0] == 'st' and x.sort[1] == 'pair':
                f = lt(sel(x, 0), sel(y, 0)); g = eq(sel(x, 0), sel(y, 0))
                h = lt(sel(x, 1), sel(y, 1))
                l = or_(f, and_(g, h)); e = eq(x, y)
                return {'<': l, '<=': or_(l, e), '>': not_(or_(l, e)), '>=': not_(l)}[op]
            return uf('cmp' + op, 'B', x, y)
        if op == '()' and isinstance(x.sort, tuple) and x.sort[0] == 'O' and so in ('I', 'R', 'B'): return self.draw(ex, st, x, so)
        if op == '()':
            if x.sort == 'M': return self.sublv(ex, st, vals[0], [ex.term(st, v) for v in vals[1:]])
            r = self.call_ext(ex, st, name, vals, so)
            if r is not None: return r
        r = self.op_ext(ex, st, op, name, x, y, vals, so)
        if r is not None: return r
        raise Unsupported('operator %s (%s)' % (op, name))

    def op_ext(self, ex, st, op, name, x, y, vals, so): return None
    def call_ext(self, ex, st, name, vals, so): return None

    def iter_op(self, ex, st, op, x, y, a):
        if op in ('==', '!='):
            if x.kind in ('vec', 'arr'): r = eq(x.pos, y.pos)
            else:
                if y.pos.op == 'mend' and x.pos.op != 'mend': r = not_(self.it_valid(x))
                elif x.pos.op == 'mend' and y.pos.op != 'mend': r = not_(self.it_valid(y))
                else: r = eq(x.pos, y.pos)
            return r if op == '==' else not_(r)
        if op in ('<', '>', '<=', '>='): return ex.binop(st, op, x.pos, y.pos)
        if op in ('+', '-') and isinstance(y, T): return Iter(x.loc, x.kind, add(x.pos, y) if op == '+' else sub(x.pos, y))
        if op == '-' and isinstance(y, Iter) and x.kind in ('vec', 'arr'): return sub(x.pos, y.pos)
        if op in ('+=', '-='):
            nv = Iter(x.loc, x.kind, add(x.pos, y) if op == '+=' else sub(x.pos, y)); st.d[a.root] = nv
            return nv
        raise Unsupported('iterator operator ' + op)
    def it_valid(self, it):
        p = it.pos
        if p.op == 'mfind': return p.args[2] if len(p.args) > 2 else mhas(p.args[0], p.args[1])
        m = p.args[0] if p.op == 'mbegin' else None
        if m is not None: return lt(I(0), msize(m))
        return mkraw('mvalid', (it.mapterm if hasattr(it, 'mapterm') else I(0), p), 'B')

    def arith(self, ex, st, op, x, y, name=''):
        if x.sort == 'S' or y.sort == 'S':
            if op == '+': return scat(x, y)
            if op == '/': return mkraw('pathjoin', (x, y), 'S')
        if x.sort == 'M' or y.sort == 'M':
            if op == '+': return madd(x, y)
            if op == '-': return madd(x, mscale(y, Rl(-1)))
            if op == '*':
                if x.sort == 'M' and y.sort == 'M': return mmul(x, y)
                if x.sort == 'M' and y.sort in ('I', 'R'): return mscale(x, toreal(y))
                if y.sort == 'M' and x.sort in ('I', 'R'): return mscale(y, toreal(x))
            if op == '/' and x.sort == 'M' and y.sort in ('I', 'R'): return mscale(x, rinv(toreal(y)))
            raise Unsupported('matrix operator ' + op)
        if isinstance(x.sort, tuple) and x.sort[0] in ('st', 'arr'):
            n = nfields(x.sort)
            if isinstance(y.sort, tuple):
                if op in ('+', '-'):
                    return mk(x.sort, *[ex.binop(st, op, sel(x, i), sel(y, i)) for i in range(n)])
            elif op in ('*', '/'):
                return mk(x.sort, *[ex.binop(st, op, sel(x, i), toreal(y) if fsort(x.sort, i) == 'R' else y) for i in range(n)])
        elif isinstance(y.sort, tuple) and y.sort[0] in ('st', 'arr') and op == '*':
            return mk(y.sort, *[ex.binop(st, op, sel(y, i), x) for i in range(nfields(y.sort))])
        if x.sort in ('I', 'R') and y.sort in ('I', 'R'): return ex.binop(st, op, x, y)
        raise Unsupported('operator %s on %s,%s' % (op, x.sort, y.sort))

    def assign(self, ex, st, l, r, name):
        if name.startswith('std::_Swallow'): return l
        if isinstance(l, Py): 
            if l.kind == 'tie':
                v = ex.val(st, r)
                return l
            if l.kind == 'opaquefield':
                x = ex.val(st, r)
                ex.set_opaque(st, l, x if isinstance(x, T) else fresh('o', ('O', 'v'))); return l
        if isinstance(l, Loc) and l.sort == 'M':
            x = ex.val(st, r)
            if isinstance(x, Comma): x = self.comma_mat(x)
            if isinstance(x, T) and isinstance(x.sort, tuple) and x.sort[0] in ('arr',):
                # Mat = Scalar : fill
                M = ex.val(st, l); s = shape(M)
                if s: ex.mat_inplace(st, l, mat(s, [sel(x, 0)] * (s[0] * s[1]))); return l
                ex.mat_inplace(st, l, mkraw('mfillall', (M, x), 'M')); return l
            if not l.path:
                if isinstance(r, Loc) or (isinstance(r, T) and r.op == 'buf'):
                    ex.bindmat(st, l.root, ex.hdr(st, r))     # header assignment
                else:
                    ex.mat_inplace(st, l, x)                    # expression assignment reuses the buffer
            else:
                if isinstance(r, Loc): x = ex.escape(st, ex.hdr(st, r))
                ex.write(st, l, x)
            return l
        x = ex.val(st, r)
        if isinstance(x, Comma): x = self.comma_mat(x)
        if isinstance(x, (Iter, Ptr, Lam)):
            if isinstance(l, Loc) and not l.path: st.d[l.root] = x; return l
        if isinstance(l, Obj) and isinstance(x, T) and x.sort == 'Ref':
            raise Unsupported('object assignment')
        if isinstance(l, Loc) and isinstance(x, T):
            so = l.sort
            if isinstance(so, tuple) and so[0] == 'vec' and isinstance(x.sort, tuple) and x.sort[0] == 'arr':
                x = vlit(so[1], [ex.coerce(sel(x, i), so[1]) for i in range(nfields(x.sort))])
            if isinstance(so, tuple) and so[0] == 'O' and not l.path: st.d[l.root] = x; return l
            ex.write(st, l, x); return l
        raise Unsupported('assignment (%s)' % name)

    def subscript(self, ex, st, a, i, name):
        if isinstance(a, Py):
            if a.kind == 'matsize':
                k = ex.term(st, i)
                if k.op == 'int': return mrows(a.m) if k.args[0] == 0 else mcols(a.m)
            r = self.sub_ext(ex, st, a, i)
            if r is not None: return r
        v = None
        so = a.sort if isinstance(a, Loc) else None
        if so is None:
            v = ex.val(st, a)
            if isinstance(v, (Ptr, Py)): return ex.index(st, v, ex.as_int(ex.term(st, i)))
            so = v.sort if isinstance(v, T) else None
        if isinstance(a, Loc):
            w = ex.getroot(st, a.root) if not a.path else None
            if isinstance(w, Py): return self.subscript(ex, st, w, i, name)
            if isinstance(w, Iter): 
                return ex.iter_deref(st, Iter(w.loc, w.kind, add(w.pos, ex.term(st, i))))
        if isinstance(v, Iter): return ex.iter_deref(st, Iter(v.loc, v.kind, add(v.pos, ex.term(st, i))))
        if so is None or not isinstance(so, tuple): 
            r = self.sub_ext(ex, st, a, i)
            if r is not None: return r
            raise Unsupported('subscript on %s' % (so,))
        if so[0] == 'map':
            k = ex.coerce(ex.term(st, i), so[1])
            if isinstance(a, Loc): return Loc(a.root, a.path + (('m', k),), so[2])
            return mget(v, k)
        k = ex.term(st, i)
        if so[0] == 'O':
            r = self.sub_ext(ex, st, a, i)
            if r is not None: return r
            raise Unsupported('subscript on %s' % (so,))
        k = ex.as_int(k)
        if so[0] == 'vec':
            if ex.bounds: ex.within(st, k, vlen(v if v is not None else ex.val(st, a)), 'vector')
            if isinstance(a, Loc): return Loc(a.root, a.path + (('v', k),), so[1])
            return vget(v, k)
        if so[0] == 'arr':
            if ex.bounds: ex.within(st, k, I(so[1]), 'array')
            if isinstance(a, Loc): return Loc(a.root, a.path + (('a', k),), so[2])
            return asel(v, k)
        raise Unsupported('subscript on %s' % (so,))
    def sub_ext(self, ex, st, a, i): return None

    def shift(self, ex, st, a, b, name, so):
        x = ex.val(st, a) if not isinstance(a, Py) else a
        if isinstance(x, Py) and x.kind == 'ostream': return a      # messages on the terminal
        if isinstance(x, Comma): return Comma(x.shape, x.vals + [ex.term(st, b)])
        if isinstance(x, T) and x.sort == 'M':
            return Comma(shape(x), [ex.term(st, b)])
        r = self.shift_ext(ex, st, a, x, b, name)
        if r is not None: return r
        raise Unsupported('operator<< (%s)' % name)
    def shift_ext(self, ex, st, a, x, b, name): return None
    def shift_in(self, ex, st, a, b, name, so):
        raise Unsupported('operator>> (%s)' % name)

    # -------------------------------------------------------------- methods
    def method(self, ex, st, name, o, vals, so, targs, sg, oty, ty):
        h = oty if isinstance(oty, str) else oty[0]
        short = name.split('::')[-1]
        f = getattr(self, 'm_' + h.replace('::', '_').replace('__', '_'), None)
        if isinstance(o, Loc) and not o.path:
            w = ex.getroot(st, o.root)
            if isinstance(w, Py) and h not in ('cv::Mat',): o = w
        if h == 'cv::Mat' or h == 'cv::MatExpr' or h == 'cv::Mat_': return self.m_mat(ex, st, short, o, vals, so, targs, ty)
        if h == 'std::vector': return self.m_vector(ex, st, short, o, vals, so, oty)
        if h in ('std::map', 'std::unordered_map'): return self.m_map(ex, st, short, o, vals, so, oty)
        if h in ('std::set', 'std::unordered_set'): return self.m_set(ex, st, short, o, vals, so, oty)
        if h in ('std::weak_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'cv::Ptr', 'std::__weak_ptr'):
            v = ex.val(st, o)
            if short in ('lock', 'get'): return v
            if short == 'operator conv': return nonnull(v)
            if short == 'expired': return not_(nonnull(v))
            if short == 'reset': ex.write(st, o, NULL); return None
        if h == 'std::array': return self.m_array(ex, st, short, o, vals, so)
        if h in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator'):
            return ex.val(st, o)
        if h == 'cv::MatCommaInitializer_':
            v = ex.val(st, o)
            if isinstance(v, Comma): return self.comma_mat(v)
            return v
        if h in ('cv::Point_', 'cv::Point3_', 'cv::Vec', 'cv::Size_', 'std::pair'):
            v = ex.val(st, o)
            if short == 'operator conv' and isinstance(v, T): return ex.coerce(v, so)
            if short == 'dot':
                w = ex.term(st, vals[0])
                return add(*[mul(sel(v, i), sel(w, i)) for i in range(nfields(v.sort))])
            if short == 'area': return mul(sel(v, 0), sel(v, 1))
        if h == 'cv::Matx':
            v = ex.val(st, o)
            if short == 'operator conv' and isinstance(v, T): return v
        if h == 'std::basic_string' or h == 'std::filesystem::path':
            v = ex.val(st, o)
            if short in ('operator conv', 'c_str', 'string', 'str', 'native', 'data'): return v
            if short in ('empty',): return eq(v, S(''))
            args = [ex.term(st, x) for x in vals]
            r = uf('str.' + short, so if so != ('O', 'void') else 'S', v, *args)
            if short in ('append', 'push_back', 'operator+='):
                ex.write(st, o, scat(v, args[0])); return o
            return r
        if short == 'lock' or short == 'unlock':
            if ex.monitor is not None:
                import threads
                v = ex.val(st, o) if h in LOCKS else None
                if v.shared if isinstance(v, Py) and v.kind == 'lock' else ex.monitor.mutex(ex, st, o): st.d[threads.HELD] = TRUE if short == 'lock' else FALSE
            return None
        if h == 'boost::asio::thread_pool' and short == 'stop': return None      # tasks that have not started are dropped
        if h == 'boost::asio::thread_pool' and short in ('join', 'wait'):
            if ex.monitor is not None:
                import threads
                st.d[threads.PEND] = FALSE
            return None
        r = self.method_ext(ex, st, name, h, short, o, vals, so, targs, oty, ty)
        if r is not NotImplemented: return r
        raise Unsupported('method %s on %s' % (name, oty))
    def method_ext(self, ex, st, name, h, short, o, vals, so, targs, oty, ty): return NotImplemented

    def m_mat(self, ex, st, m, o, vals, so, targs, ty):
        if m == 'at' or m == 'operator()':
            ix = [ex.term(st, v) for v in vals]
            if m == 'operator()' and any(i.sort != 'I' for i in ix):
                return self.sublv(ex, st, o, ix)
            el = 'R'
            if targs and isinstance(targs[0], tuple): el = sort_of(targs[0])
            d = {'double': 'd', 'float': 'f', 'unsigned char': 'u', 'int': 'i'}.get(targs[0] if targs else None)
            v = ex.val(st, o)
            s = shape(v)
            if s and d and s[2] and s[2] != d: raise Unsupported('Mat::at<%s> on a matrix of depth %s' % (targs[0], s[2]))
            if len(ix) == 1:
                if isinstance(ix[0].sort, tuple):   # at(Point)
                    p = ix[0]
                    step = ('at', ex.as_int(sel(p, 1)), ex.as_int(sel(p, 0)))
                else:
                    step = ('at1', ex.as_int(ix[0]))
                    if ex.bounds and (s or v.op in ('acc', 'ite', 'mpushrow')): ex.within(st, step[1], I(s[0] * s[1]) if s else mrows(v), 'matrix')
            elif len(ix) == 2: step = ('at', ex.as_int(ix[0]), ex.as_int(ix[1]))
            else: raise Unsupported('Mat::at with %d indices' % len(ix))
            if el != 'R':
                if len(step) == 3 : return mkraw('atv', (v, step[1], step[2]), el)
                return mkraw('atv', (v, step[1], I(0)), el)
            if isinstance(o, Loc): return Loc(o.root, o.path + (step,), 'R')
            return ex.step(v, step)
        if m == 'ptr':
            i = ex.term(st, vals[0]) if vals else I(0)
            if not isinstance(o, Loc): raise Unsupported('pointer into a temporary matrix')
            return exm.mptr(o, ex.as_int(i))
        v = ex.val(st, o)
        if isinstance(v, Comma): v = self.comma_mat(v)
        if m == 'inv':
            return minv(v)
        if m == 't': return mt(v)
        if m == 'clone': return v
        if m == 'operator conv':
            if isinstance(so, tuple) and so[0] in ('arr', 'st'): return mk(so, *[ex.at1(v, I(i)) for i in range(nfields(so))])
            if isinstance(so, tuple) and so[0] == 'vec': return mkraw('vecof', (v,), so)
            if so == 'M': return ex.hdr(st, o) if isinstance(o, Loc) else v
        if m == 'copyTo':
            d = vals[0]
            if len(vals) == 1:
                if isinstance(d, Loc) and d.sort == 'M': ex.mat_inplace(st, d, v); return None
                if isinstance(d, Loc) and isinstance(d.sort, tuple) and d.sort[0] == 'vec':
                    ex.write(st, d, mkraw('vecof', (v,), d.sort)); return None
                if isinstance(d, T) and d.op == 'buf':
                    st.d[('b', d.args[0])] = v; return None
        if m == 'convertTo':
            t = ex.term(st, vals[1])
            extra = [ex.term(st, x) for x in vals[2:]]
            w = v
            if extra and not (isnum(extra[0]) and extra[0].args[0] == 1): w = mscale(w, extra[0])
            if len(extra) > 1 and not (isnum(extra[1]) and extra[1].args[0] == 0): w = mkraw('maddc', (w, extra[1]), 'M')
            s = shape(w)
            dd = depth_of(t)
            if s: w = mkraw('mat', ((s[0], s[1], dd),) + entries(w).args[1:], 'M')
            else: w = mkraw('mconv', (w, I({'d': 6, 'f': 5, 'u': 0}.get(dd, 9))), 'M') if dd not in ('d',) else w
            ex.mat_inplace(st, vals[0], w) if shape(v) != shape(w) or True else None
            return None
        if m == 'empty':
            if v.op == 'mat': return Bv(v.args[0][0] * v.args[0][1] == 0)
            s = shape(v)
            if s: return FALSE
            return eq(mkraw('mtotal', (v,), 'I'), I(0))
        if m == 'size': return mk(('st', 'Size', 'I', 'I'), mcols(v), mrows(v))
        if m == 'total':
            return mul(mrows(v), mcols(v))
        if m == 'push_back':
            x = ex.val(st, vals[0])
            x = ex.escape(st, x) if isinstance(x, T) else x
            ex.write_mat(st, o, mkraw('mpushrow', (v, x), 'M'))
            return None
        if m == 'row': return uf_row(entries(v) if entries(v) is not None else v, ex.term(st, vals[0]))
        if m == 'col': return uf_col(entries(v) if entries(v) is not None else v, ex.term(st, vals[0]))
        if m in ('rowRange', 'colRange', 'reshape', 'diag', 'type', 'depth', 'channels', 'step1', 'elemSize'):
            args = [ex.term(st, x) for x in vals]
            return uf('Mat.' + m, so, v, *args)
        if m == 'create':
            args = [ex.term(st, x) for x in vals]
            if len(args) == 3 and args[0].op == 'int' and args[1].op == 'int' and args[0].args[0] * args[1].args[0] <= 256:
                n = args[0].args[0] * args[1].args[0]
                c = mat((args[0].args[0], args[1].args[0], depth_of(args[2])), [fresh('undef', 'R') for _ in range(n)])
            else: c = mkraw('mundef', tuple(args), 'M')
            ex.mat_inplace(st, o, c)
            return None
        if m == 'setTo':
            x = ex.term(st, vals[0]); s = shape(v)
            if s: ex.mat_inplace(st, o, mat(s, [sel(x, 0) if isinstance(x.sort, tuple) else toreal(x)] * (s[0] * s[1])))
            else: ex.mat_inplace(st, o, mkraw('mfillall', (v, x), 'M'))
            return o
        if m == 'mul':
            w = ex.term(st, vals[0])
            return mkraw('mhad', (v, w), 'M')
        if m == 'dot':
            return uf('Mat.dot', 'R', v, ex.term(st, vals[0]))
        if m == 'release': ex.mat_inplace(st, o, default('M')); return None
        if m in ('zeros', 'eye', 'ones'): pass
        raise Unsupported('cv::Mat::' + m)

    def m_array(self, ex, st, m, o, vals, so):
        if m in ('operator[]', 'at'): return self.subscript(ex, st, o, vals[0], 'array')
        if m == 'size': return I(o.sort[1] if isinstance(o, Loc) else ex.val(st, o).sort[1])
        if m == 'data': return Ptr(o, I(0)) if isinstance(o, Loc) else Ptr(self.tmp(ex, st, o), I(0))
        if m in ('begin', 'cbegin'): return Ptr(o, I(0))
        if m in ('end', 'cend'): return Ptr(o, I(o.sort[1]))
        if m == 'fill':
            x = ex.term(st, vals[0]); s = o.sort
            ex.write(st, o, mk(s, *[ex.coerce(x, s[2])] * s[1])); return None
        if m == 'front': return ex.index(st, o, I(0))
        if m == 'back': return ex.index(st, o, I(o.sort[1] - 1))
        raise Unsupported('std::array::' + m)

    def tmp(self, ex, st, v):
        ex.nframe += 1
        key = ('v', 'tmp', ex.nframe)
        st.d[key] = v
        return Loc(key, (), v.sort)

    def m_vector(self, ex, st, m, o, vals, so, oty):
        v = ex.val(st, o)
        if isinstance(v, Py) and v.kind == 'list':
            if m == 'size': return I(len(v.items))
        if not isinstance(v, T): raise Unsupported('vector of %s' % type(v).__name__)
        vs = v.sort
        es = vs[1]
        def elem(x):
            x = ex.hdr(st, x) if es == 'M' else ex.val(st, x)
            if isinstance(x, Comma): x = self.comma_mat(x)
            if es == 'M': x = ex.escape(st, x)
            if isinstance(x, Obj): x = x.ref
            if not isinstance(x, T): raise Unsupported('vector element')
            return ex.coerce(x, es)
        if m == 'size': return vlen(v)
        if m == 'empty': return eq(vlen(v), I(0))
        if m in ('push_back',): ex.write(st, o, vpush(v, elem(vals[0]))); return None
        if m == 'emplace_back':
            if isinstance(oty[1], str) and oty[1] in ex.prog.records and isinstance(es, tuple) and es[0] == 'st': x = self.construct_pod(ex, st, oty[1], es, vals, None)
            elif isinstance(es, tuple) and es[0] in ('st', 'arr') and len(vals) != 1:
                x = mk(es, *[ex.coerce(ex.term(st, a), fsort(es, i)) for i, a in enumerate(vals)])
            elif len(vals) == 1: x = elem(vals[0])
            elif not vals: x = default(es)
            else:
                x = self.construct(ex, st, oty[1], vals, 'other', None)
                x = ex.val(st, x)
            ex.write(st, o, vpush(v, x))
            return None if so == ('O', 'void') else Loc(o.root, o.path + (('v', vlen(v)),), es)
        if m in ('reserve', 'shrink_to_fit'): return None
        if m == 'capacity': return uf('capacity', 'I', v)
        if m == 'clear': ex.write(st, o, vnil(es)); return None
        if m in ('begin', 'cbegin'): return Iter(o if isinstance(o, Loc) else v, 'vec', I(0))
        if m in ('end', 'cend'): return Iter(o if isinstance(o, Loc) else v, 'vec', vlen(v))
        if m == 'at': return self.subscript(ex, st, o, vals[0], 'vector')
        if m == 'front': return Loc(o.root, o.path + (('v', I(0)),), es) if isinstance(o, Loc) else vget(v, I(0))
        if m == 'back':
            i = sub(vlen(v), I(1))
            return Loc(o.root, o.path + (('v', i),), es) if isinstance(o, Loc) else vget(v, i)
        if m == 'pop_back':
            ex.write(st, o, v.args[0] if v.op == 'vpush' else mkraw('vpop', (v,), vs)); return None
        if m == 'resize':
            n = ex.term(st, vals[0]); x = elem(vals[1]) if len(vals) > 1 else default(es)
            if vlen(v) is I(0): ex.write(st, o, vrep(n, x))
            else:
                k = bvar('k', 'I')
                ex.write(st, o, acc(vnil(es), [(((k, drange(I(0), n)),), TRUE, 'push', (ite(lt(k, vlen(v)), vget(v, k), x),))]))
            return None
        if m == 'assign':
            a = ex.val(st, vals[0])
            if isinstance(a, Iter): ex.write(st, o, self.vec_range(ex, st, a, ex.val(st, vals[1]), vs))
            elif isinstance(a, Ptr): ex.write(st, o, self.vec_ctor(ex, st, vs, vals, oty))
            else: ex.write(st, o, vrep(a, elem(vals[1])))
            return None
        if m == 'data': return Ptr(o, I(0))
        if m == 'erase':
            a = ex.val(st, vals[0])
            if len(vals) == 1: ex.write(st, o, mkraw('verase', (v, a.pos), vs)); return None
            b = ex.val(st, vals[1])
            if a.pos.op == 'uniqend' and b.pos is vlen(v):
                ex.write(st, o, mkraw('vuniq', (a.pos.args[0],), vs)); return None
            ex.write(st, o, mkraw('verase2', (v, a.pos, b.pos), vs)); return None
        if m == 'insert':
            p = ex.val(st, vals[0]); a = ex.val(st, vals[1])
            if isinstance(a, Iter) and len(vals) == 3 and p.pos is vlen(v):
                w = self.vec_range(ex, st, a, ex.val(st, vals[2]), vs)
                k = bvar('k', 'I')
                ex.write(st, o, acc(v, [(((k, drange(I(0), vlen(w))),), TRUE, 'push', (vget(w, k),))]))
                return None
            if p.pos is vlen(v) and len(vals) == 2: ex.write(st, o, vpush(v, elem(vals[1]))); return None
        if m == 'swap':
            w = ex.val(st, vals[0]); ex.write(st, o, w); ex.write(st, vals[0], v); return None
        raise Unsupported('std::vector::' + m)

    def m_map(self, ex, st, m, o, vals, so, oty):
        v = ex.val(st, o)
        ms = v.sort
        src = o if isinstance(o, Loc) else v
        if m == 'size': return msize(v)
        if m == 'empty': return eq(msize(v), I(0))
        if m == 'clear': ex.write(st, o, mnil(ms[1], ms[2])); return None
        if m == 'swap':
            w = ex.val(st, vals[0]); ex.write(st, o, w); ex.write(st, vals[0], v); return None
        if m in ('begin', 'cbegin'): return Iter(src, 'map', mkraw('mbegin', (v,), ms[1]))
        if m in ('end', 'cend'): return Iter(src, 'map', mkraw('mend', (v,), ms[1]))
        if m == 'rbegin': return Iter(src, 'map', mkraw('mlast', (v,), ms[1]))
        if m == 'find':
            k = ex.coerce(ex.term(st, vals[0]), ms[1])
            return Iter(src, 'map', mkfind(v, k))
        if m in ('count', 'contains'):
            k = ex.coerce(ex.term(st, vals[0]), ms[1])
            h = mhas(v, k)
            return h if m == 'contains' else ite(h, I(1), I(0))
        if m == 'at':
            k = ex.coerce(ex.term(st, vals[0]), ms[1])
            return Loc(o.root, o.path + (('m', k),), ms[2]) if isinstance(o, Loc) else mget(v, k)
        if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if len(vals) == 2 and not isinstance(ex.val(st, vals[0]), Iter):
                k, x = ex.term(st, vals[0]), ex.hdr(st, vals[1]) if ms[2] == 'M' else ex.val(st, vals[1])
            elif len(vals) == 1:
                e = ex.val(st, vals[0])
                if isinstance(e, T) and e.sort[0] in ('st',): k, x = sel(e, 0), sel(e, 1)
                elif isinstance(e, T) and e.sort[0] == 'arr':
                    cur = v
                    for i in range(nfields(e.sort)): cur = mins(cur, sel(sel(e, i), 0), sel(sel(e, i), 1))
                    ex.write(st, o, cur); return None
                else: raise Unsupported('map::insert argument')
            else: raise Unsupported('map::' + m)
            if isinstance(x, Obj): x = x.ref
            if ms[2] == 'M': x = ex.escape(st, x)
            k = ex.coerce(k, ms[1]); x = ex.coerce(x, ms[2])
            h = mhas(v, k)
            ex.write(st, o, mput(v, k, x) if m == 'insert_or_assign' else mins(v, k, x))
            return Py('entry', get=lambda f: (not_(h) if f == 'second' else Iter(src, 'map', mkfind(v, k))))
        if m == 'erase':
            a = ex.val(st, vals[0])
            k = a.pos.args[1] if isinstance(a, Iter) and a.pos.op == 'mfind' else a.pos if isinstance(a, Iter) else ex.coerce(a, ms[1])
            ex.write(st, o, mkraw('merase', (v, k), ms)); return I(1)
        raise Unsupported('std::map::' + m)

    def m_set(self, ex, st, m, o, vals, so, oty):
        v = ex.val(st, o); ss = v.sort
        src = o if isinstance(o, Loc) else v
        if m == 'size': return mkraw('ssize', (v,), 'I')
        if m == 'empty': return eq(mkraw('ssize', (v,), 'I'), I(0))
        if m in ('insert', 'emplace'):
            x = ex.coerce(ex.term(st, vals[0]), ss[1])
            ex.write(st, o, mkraw('sins', (v, x), ss))
            return Py('entry', get=lambda f: not_(shas(v, x)) if f == 'second' else Iter(src, 'set', x))
        if m in ('count', 'contains'):
            x = ex.coerce(ex.term(st, vals[0]), ss[1])
            return ite(shas(v, x), I(1), I(0)) if m == 'count' else shas(v, x)
        if m in ('begin', 'cbegin'): return Iter(src, 'set', mkraw('mbegin', (v,), ss[1]))
        if m in ('end', 'cend'): return Iter(src, 'set', mkraw('mend', (v,), ss[1]))
        if m == 'find':
            x = ex.coerce(ex.term(st, vals[0]), ss[1])
            return Iter(src, 'set', mkraw('mfind', (v, x, shas(v, x)), ss[1]))
        if m == 'clear': ex.write(st, o, default(ss)); return None
        raise Unsupported('std::set::' + m)

    # ---------------------------------------------------------- free functions
    def call(self, ex, st, name, vals, so, targs, sg, ty):
        if name in ('std::bind', 'boost::bind', 'boost::asio::post', 'std::thread::hardware_concurrency') or (name in ('std::ref', 'std::cref') and ex.monitor is not None):
            import threads
            if name == 'boost::asio::post':
                return threads.post(ex, st, *vals[:2])
            if name in ('std::ref', 'std::cref'): return Py('refto', loc=vals[0])
            if name == 'std::thread::hardware_concurrency': return mkraw('hardware_concurrency', (), 'I')
            return threads.bind(ex, st, vals)
        if name in PURE:
            args = [ex.arith(ex.term(st, v)) for v in vals]
            if name not in ('std::abs',): args = [toreal(a) for a in args]
            return self.pure(PURE[name], args, so)
        if name in ('abs', 'std::abs', 'fabs', 'std::fabs'):
            x = ex.arith(ex.term(st, vals[0]))
            if isnum(x): return num(abs(x.args[0]), x.sort)
            p = neg(x)
            x = x if x.id < p.id else p
            return mkraw('abs', (x,), x.sort)
        if name in ('pow', 'std::pow'):
            x, y = toreal(ex.term(st, vals[0])), ex.term(st, vals[1])
            if isnum(y) and y.args[0] == 2: return mul(x, x)
            if isnum(y) and y.args[0] == 3: return mul(x, x, x)
            if isnum(y) and Fraction(y.args[0]) == Fraction(1, 2): return self.pure('sqrt', [x], 'R')
            return uf('pow', 'R', x, toreal(y))
        if name in ('std::min', 'std::max'):
            a, b = ex.term(st, vals[0]), ex.term(st, vals[1])
            if a.sort != b.sort: a, b = toreal(a), toreal(b)
            return ite(le(a, b), a, b) if name == 'std::min' else ite(le(a, b), b, a)
        if name in ('std::hypot', 'hypot'):
            a, b = [toreal(ex.term(st, v)) for v in vals]
            return self.pure('sqrt', [add(mul(a, a), mul(b, b))], 'R')
        if name in ('std::make_pair',):
            xs = []
            for i, v in enumerate(vals):
                x = ex.hdr(st, v)
                if isinstance(x, T) and x.op == 'buf': x = ex.escape(st, x)
                if isinstance(x, Obj): x = x.ref
                if not isinstance(x, T): raise Unsupported('make_pair of %s' % type(x).__name__)
                xs.append(ex.coerce(x, so[2 + i]))
            return mk(so, *xs)
        if name in ('std::move', 'std::forward', 'std::ref', 'std::cref'): return vals[0]
        if name in ('std::make_shared', 'boost::make_shared', 'std::make_unique', 'cv::makePtr'):
            cls = targs[0]
            if isinstance(cls, str) and cls in ex.prog.records:
                ref = ex.alloc(st, cls)
                if len(vals) == 1 and isinstance(vals[0], Obj):
                    return ex.copy_object(st, vals[0], cls).ref
                ex.construct(st, ref, cls, vals)
                return ref
        if name == 'std::minmax' and len(vals) == 2 and isinstance(so, tuple) and so[0] == 'st':
            a, b = [ex.term(st, x) for x in vals]
            return mk(so, ite(le(a, b), a, b), ite(le(a, b), b, a))
        if name == 'std::tie': return Py('tie', items=list(vals))
        if name == 'std::swap':
            a, b = ex.val(st, vals[0]), ex.val(st, vals[1])
            ex.write(st, vals[0], b); ex.write(st, vals[1], a); return None
        if name == 'std::copy_n':
            src, n, dst = ex.val(st, vals[0]), ex.term(st, vals[1]), ex.val(st, vals[2])
            if n.op == 'int':
                def el(p, i):
                    if isinstance(p, Ptr): return ex.index(st, p, I(i))
                    return ex.iter_deref(st, Iter(p.loc, p.kind, add(p.pos, I(i))))
                xs = [ex.val(st, el(src, i)) for i in range(n.args[0])]
                if isinstance(dst, (Ptr, Iter)):
                    for i, x in enumerate(xs): ex.write(st, el(dst, i), x)
                    return dst
        if name == 'std::copy':
            a, b, d = [ex.val(st, v) for v in vals]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(d, Ptr):
                n = sub(b.off, a.off)
                if n.op == 'int':
                    xs = [ex.val(st, ex.index(st, a, I(i))) for i in range(n.args[0])]
                    for i, x in enumerate(xs): ex.write(st, ex.index(st, d, I(i)), x)
                    return Ptr(d.loc, add(d.off, n))
        r = self.algorithms(ex, st, name, vals, so)
        if r is not NotImplemented: return r
        r = self.opencv(ex, st, name, vals, so, targs)
        if r is not NotImplemented: return r
        if name == 'std::to_string': return mkraw('tostr', (ex.term(st, vals[0]),), 'S')
        if name in ('std::stoi',): 
            x = ex.term(st, vals[0])
            return x.args[0] if x.op == 'tostr' and x.args[0].sort == 'I' else mkraw('stoi', (x,), 'I')
        if name in ('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::numeric_limits::epsilon', 'std::numeric_limits::infinity'):
            return mkraw('const', (name,), so)
        if name == 'std::get':
            i = targs[0] if targs and isinstance(targs[0], int) else None
            v = vals[0]
            if i is not None:
                if isinstance(v, Loc): return Loc(v.root, v.path + (('f', i),), fsort(v.sort, i))
                return sel(ex.val(st, v), i)
        r = self.call_ext(ex, st, name, vals, so, targs, ty) if True else None
        if r is not NotImplemented: return r
        raise Unsupported('function %s' % name)

    def pure(self, f, args, so):
        if f == 'isnan' or f == 'isinf' and isnum(args[0]): return FALSE   # A-REAL
        if f == 'isinf': return TRUE if args[0].op == 'const' and args[0].args[0].endswith('::infinity') else mkraw('isinf', tuple(args), 'B')
        if all(isnum(a) for a in args):
            x = args[0].args[0]
            if f == 'sqrt' and x >= 0:
                import math
                n, d = x.numerator, x.denominator
                if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return Rl(Fraction(math.isqrt(n), math.isqrt(d)))
            if f in ('floor', 'ceil', 'round'):
                import math
                return Rl({'floor': math.floor, 'ceil': math.ceil, 'round': lambda q: math.floor(q + Fraction(1, 2))}[f](x))
            if x == 0 and f in ('sin', 'atan', 'tan', 'asin'): return Rl(0)
            if x == 0 and f in ('cos', 'exp'): return Rl(1)
        r = mkraw(f, tuple(args), 'R')
        if so == 'I': return trunc(r)
        return r

    def algorithms(self, ex, st, name, vals, so):
        if name in ('std::find', 'std::count', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if'):
            a, b = ex.val(st, vals[0]), ex.val(st, vals[1])
            a, b = toiter(a), toiter(b)
            v = ex.val(st, a.loc)
            k = bvar('k', 'I')
            el = vget(v, k) if a.kind == 'vec' else asel(v, k)
            dom = drange(a.pos, b.pos)
            if name in ('std::find', 'std::count'): c = eq(el, ex.coerce(ex.term(st, vals[2]), el.sort))
            else: c = ex.boolean(st, ex.call_lambda(st, ex.val(st, vals[2]), [el]))
            f = lam(k, c)
            if name == 'std::any_of': return dexists(dom, f)
            if name == 'std::none_of': return not_(dexists(dom, f))
            if name == 'std::all_of': return not_(dexists(dom, lam(k, not_(c))))
            if name == 'std::count':
                import loops
                return loops.finish(I(0), [(((k, dom),), c, 'add', (I(1),))])
            return Iter(a.loc, a.kind, mkfindpos(dom, f, b.pos))
        if name == 'std::distance':
            a, b = ex.val(st, vals[0]), ex.val(st, vals[1])
            if isinstance(a, Iter): return sub(b.pos, a.pos)
            return sub(b.off, a.off)
        if name in ('std::sort', 'std::stable_sort', 'std::reverse', 'std::shuffle', 'std::random_shuffle'):
            a, b = ex.val(st, vals[0]), ex.val(st, vals[1])
            if isinstance(a, Iter) and a.kind == 'vec' and isinstance(a.loc, Loc):
                v = ex.val(st, a.loc)
                if a.pos is I(0) and b.pos is vlen(v):
                    op = {'std::sort': 'vsort', 'std::stable_sort': 'vsort', 'std::reverse': 'vreverse'}.get(name, 'vshuffle')
                    if op == 'vsort' and len(vals) > 2: raise Unsupported('sort with comparator')
                    args = (v,)
                    if op == 'vshuffle': args = (v, ex.rnd('s'))
                    ex.write(st, a.loc, mkraw(op, args, v.sort)); return None
        if name == 'std::unique':
            a, b = ex.val(st, vals[0]), ex.val(st, vals[1]); v = ex.val(st, a.loc)
            if a.pos is I(0) and b.pos is vlen(v): return Iter(a.loc, 'vec', mkraw('uniqend', (v,), 'I'))
        if name == 'std::nth_element':
            raise Unsupported('nth_element')
        if name in ('std::min_element', 'std::max_element'):
            a, b = [toiter(ex.val(st, x)) for x in vals[:2]]; v = ex.val(st, a.loc)
            if len(vals) == 2 and a.kind == 'vec':
                return Iter(a.loc, 'vec', mkraw('argmin' if name == 'std::min_element' else 'argmax', (v, a.pos, b.pos), 'I'))
            if len(vals) == 3 and a.kind == 'map': 
                lamv = ex.val(st, vals[2])
                m = v
                es = ('st', 'pair', m.sort[1], m.sort[2])
                p, q = bvar('p', es), bvar('q', es)
                c = ex.boolean(st, ex.call_lambda(st, lamv, [p, q]))
                x, y = fresh('x', m.sort[2]), fresh('y', m.sort[2])
                return Iter(a.loc, 'map', mkraw('margbest', (m, lam(p, lam(q, c)), Bv(name == 'std::max_element')), m.sort[1]))
        if name == 'std::accumulate':
            a, b = [toiter(ex.val(st, x)) for x in vals[:2]]; v = ex.val(st, a.loc)
            init = ex.coerce(ex.term(st, vals[2]), so)
            if len(vals) == 3 and a.kind == 'vec':
                import loops
                k = bvar('k', 'I')
                return loops.finish(init, [(((k, drange(a.pos, b.pos)),), TRUE, 'add', (vget(v, k),))]) if so in ('I', 'R') else NotImplemented
        if name == 'std::iota':
            a, b = [toiter(ex.val(st, x)) for x in vals[:2]]; v = ex.val(st, a.loc); x0 = ex.term(st, vals[2])
            if a.pos is I(0) and b.pos is vlen(v):
                k = bvar('k', 'I')
                import loops
                xs = loops.concrete_vec(v)
                if xs is not None: ex.write(st, a.loc, vlit(v.sort[1], [add(x0, I(i)) for i in range(len(xs))]))
                else: ex.write(st, a.loc, acc(vnil(v.sort[1]), [(((k, drange(I(0), vlen(v))),), TRUE, 'push', (add(x0, k),))]))
                return None
        if name in ('std::transform', 'std::for_each', 'std::copy_if', 'std::copy', 'std::generate', 'std::fill'):
            return self.algo_loop(ex, st, name, vals)
        if name in ('std::back_inserter', 'std::inserter'): return Py('inserter', loc=vals[0])
        if name == 'std::set_intersection':
            a, b, c, d = [toiter(ex.val(st, x)) for x in vals[:4]]
            out = ex.val(st, vals[4])
            if isinstance(out, Py) and out.kind == 'inserter':
                x, y = ex.val(st, a.loc), ex.val(st, c.loc)
                old = ex.val(st, out.loc)
                if a.kind == 'map':
                    # the entries of the first map whose key has an equal value in the second (which comes first for equal keys does not matter)
                    import loops
                    k = bvar('k', x.sort[1])
                    new = loops.finish(old, [(((k, dkeys(x)),), and_(mhas(y, k), eq(mget(x, k), mget(y, k))), 'ins', (k, mget(x, k)))])
                    ex.write(st, out.loc, new); return None
                ex.write(st, out.loc, mkraw('vintersect', (old, x, y), old.sort))
                return None
        if name in ('std::begin', 'std::end', 'std::cbegin', 'std::cend'):
            v = ex.val(st, vals[0]); o = vals[0]
            n = name.split('::')[1].lstrip('c')
            if v.sort[0] == 'vec': return self.m_vector(ex, st, n, o, [], so, None)
            if v.sort[0] == 'map': return self.m_map(ex, st, n, o, [], so, None)
        if name in ('std::next', 'std::prev', 'std::advance'):
            it = ex.val(st, vals[0]); n = ex.term(st, vals[1]) if len(vals) > 1 else I(1)
            if it.kind == 'vec': return Iter(it.loc, it.kind, add(it.pos, n) if name != 'std::prev' else sub(it.pos, n))
        return NotImplemented

    def algo_loop(self, ex, st, name, vals):
        import loops
        a, b = [toiter(ex.val(st, x)) for x in vals[:2]]
        if a.kind == 'vec':
            v = ex.val(st, a.loc); k = bvar('k', 'I'); dom = drange(a.pos, b.pos)
            elv = lambda S: Loc(a.loc.root, a.loc.path + (('v', k),), v.sort[1]) if isinstance(a.loc, Loc) else vget(v, k)
        elif a.kind == 'map':
            v = ex.val(st, a.loc); k = bvar('k', v.sort[1]); dom = dkeys(v)
            elv = lambda S: ex.iter_deref(S, Iter(a.loc, 'map', k))
        else: return NotImplemented
        def emit(S, out, x):
            if isinstance(out, Py) and out.kind == 'inserter':
                cur = ex.val(S, out.loc)
                ex.write(S, out.loc, vpush(cur, ex.coerce(ex.term(S, x), cur.sort[1]))); return
            if isinstance(out, Iter) and out.kind == 'vec':
                ex.write(S, ex.iter_deref(S, Iter(out.loc, 'vec', add(out.pos, sub(k, a.pos)))), ex.val(S, x)); return
            raise Unsupported('algorithm output')
        if name == 'std::for_each':
            f = ex.val(st, vals[2])
            def it(S): ex.call_lambda(S, f, [elv(S)]); return [Out('n', S)]
        elif name == 'std::transform' and len(vals) == 4:
            out = ex.val(st, vals[2]); f = ex.val(st, vals[3])
            def it(S): emit(S, out, ex.call_lambda(S, f, [elv(S)])); return [Out('n', S)]
        elif name == 'std::copy_if':
            out = ex.val(st, vals[2]); f = ex.val(st, vals[3])
            def it(S):
                c = ex.boolean(S, ex.call_lambda(S, f, [elv(S)]))
                s1 = S.clone().assume(c); s2 = S.clone().assume(not_(c))
                emit(s1, out, elv(s1))
                return [Out('n', x) for x in ex.merge([s1, s2])]
        elif name == 'std::copy':
            out = ex.val(st, vals[2])
            def it(S): emit(S, out, elv(S)); return [Out('n', S)]
        elif name == 'std::fill':
            x = ex.term(st, vals[2])
            def it(S): ex.write(S, elv(S), x); return [Out('n', S)]
        else: return NotImplemented
        outs = loops.foreach(ex, st, dom, k, it)
        if len(outs) != 1: raise Unsupported('algorithm with exits')
        st.d, st.pc = outs[0].st.d, outs[0].st.pc
        return None

    # ------------------------------------------------------------- OpenCV
    def inmat(self, ex, st, v):
        """InputArray argument as a term"""
        if isinstance(v, Py) and v.kind == 'noarray': return default('M')
        x = ex.val(st, v)
        if isinstance(x, Comma): x = self.comma_mat(x)
        if not isinstance(x, T): raise Unsupported('OpenCV input %s' % type(x).__name__)
        return x

    def outmat(self, ex, st, loc, mk_):
        """OutputArray argument: mk_(sort) gives the content"""
        if isinstance(loc, Py): return
        if isinstance(loc, T) and loc.op == 'buf': st.d[('b', loc.args[0])] = mk_('M'); return
        if not isinstance(loc, Loc): raise Unsupported('OpenCV output argument')
        if loc.sort == 'M': ex.mat_inplace(st, loc, mk_('M'))
        else: ex.write(st, loc, mk_(loc.sort))

    def opencv(self, ex, st, name, vals, so, targs):
        if name in ('cv::noArray',): return Py('noarray')
        if name in ('cv::Mat::zeros', 'cv::Mat::ones', 'cv::Mat::eye', 'cv::Mat_::zeros', 'cv::Mat_::ones', 'cv::Mat_::eye'):
            a = [ex.term(st, v) for v in vals]
            if len(a) >= 2 and a[0].sort == 'I' and a[1].sort == 'I':
                d = depth_of(a[2]) if len(a) > 2 else 'd'
                k = name.split('::')[-1]
                if a[0].op == 'int' and a[1].op == 'int' and a[0].args[0] * a[1].args[0] <= 400:
                    r, c = a[0].args[0], a[1].args[0]
                    return mat((r, c, d), [num({'zeros': 0, 'ones': 1, 'eye': int(i == j)}[k], 'R') for i in range(r) for j in range(c)])
                return mkraw('m' + k, tuple(a), 'M')
            return mkraw('m' + name.split('::')[-1], tuple(a), 'M')
        if name == 'cv::Rodrigues':
            ex.trusted.add(name)
            x = self.inmat(ex, st, vals[0])
            s = shape(x)
            if x.sort != 'M':
                if x.sort[0] in ('arr', 'st') and nfields(x.sort) == 3: x = mat((3, 1, 'd'), [sel(x, i) for i in range(3)]); s = (3, 1, 'd')
                elif x.sort[0] == 'vec': 
                    import loops
                    xs = loops.concrete_vec(x)
                    x = mat((len(xs), 1, 'd'), xs) if xs is not None else mkraw('matof', (x,), 'M'); s = shape(x)
            if s is None: raise Unsupported('Rodrigues of a matrix of unknown shape')
            r = rodrv(x) if s[:2] == (3, 3) else rodr(x)
            def mk_(sort):
                if sort == 'M': return r
                if sort[0] in ('arr', 'st'): return mk(sort, *[ex.at1(r, I(i)) for i in range(nfields(sort))])
                if sort[0] == 'vec': return vlit('R', [ex.at1(r, I(i)) for i in range(3)])
                raise Unsupported('Rodrigues output')
            self.outmat(ex, st, vals[1], mk_)
            return None
        if name == 'cv::invert':
            self.outmat(ex, st, vals[1], lambda s: minv(self.inmat(ex, st, vals[0]))); return Rl(1)
        if name in ('cv::transpose',):
            self.outmat(ex, st, vals[1], lambda s: mt(self.inmat(ex, st, vals[0]))); return None
        if name in ('cv::hconcat', 'cv::vconcat'):
            a = self.inmat(ex, st, vals[0])
            if len(vals) == 3:
                b = self.inmat(ex, st, vals[1])
                sa, sb = shape(a), shape(b)
                h = name == 'cv::hconcat'
                if sa and sb and h and sa[0] == sb[0]:
                    A, B = entries(a), entries(b)
                    r = mat((sa[0], sa[1] + sb[1], sa[2]), [at(A, I(i), I(j)) if j < sa[1] else at(B, I(i), I(j - sa[1])) for i in range(sa[0]) for j in range(sa[1] + sb[1])])
                elif sa and sb and not h and sa[1] == sb[1]:
                    r = mat((sa[0] + sb[0], sa[1], sa[2]), list(entries(a).args[1:]) + list(entries(b).args[1:]))
                else: r = mkraw(name, (a, b), 'M')
                self.outmat(ex, st, vals[2], lambda s: r); return None
        if name in ('cv::trace', 'cv::mean', 'cv::sum'):
            a = self.inmat(ex, st, vals[0])
            if name == 'cv::trace' and a.sort == 'M' and shape(a):
                return mk(so, add(*[at(a, I(i), I(i)) for i in range(shape(a)[0])]), Rl(0), Rl(0), Rl(0))
            return mkraw(name, (a,), so)
        if name in ('cv::norm', 'cv::determinant'):
            a = [self.inmat(ex, st, v) for v in vals]
            if name == 'cv::norm':
                p = a[0]
                if len(a) == 1 and isinstance(p.sort, tuple) and p.sort[0] in ('st', 'arr'):
                    return self.pure('sqrt', [add(*[mul(toreal(sel(p, i)), toreal(sel(p, i))) for i in range(nfields(p.sort))])], 'R')
                if len(a) == 2 and isinstance(p.sort, tuple) and p.sort[0] in ('st', 'arr'):
                    q = a[1]
                    dd = [sub(toreal(sel(p, i)), toreal(sel(q, i))) for i in range(nfields(p.sort))]
                    return self.pure('sqrt', [add(*[mul(x, x) for x in dd])], 'R')
                a = [x for x in a if x.sort == 'M' or isinstance(x.sort, tuple)]
                M = madd(a[0], mscale(a[1], Rl(-1))) if len(a) == 2 and a[0].sort == 'M' else a[0]
                s = shape(M) if M.sort == 'M' else None
                if s: return self.pure('sqrt', [add(*[mul(x, x) for x in entries(M).args[1:]])], 'R')
                return mkraw('norm', tuple(a), 'R')
            return mkraw(name, tuple(a), 'R')
        if name in ('cv::projectPoints', 'cv::fisheye::projectPoints'):
            # one image point per object point, each a function of that point, the pose and the lens
            fish = 'fisheye' in name
            ex.trusted.add(name)
            i, o = ([0, 2, 3, 4, 5], 1) if fish else ([0, 1, 2, 3, 4], 5)
            pts, r, t, K, D = [self.inmat(ex, st, vals[j]) for j in i]
            rest = [v for v in vals[6:] if not (isinstance(v, Py) and v.kind == 'noarray')]
            if isinstance(pts.sort, tuple) and pts.sort[0] == 'vec' and not any(not isinstance(v, T) or v is not num(0, v.sort) for v in rest):
                def mkpts(so_):
                    if so_[0] != 'vec': raise Unsupported('projectPoints output')
                    import spec
                    return spec.collect(so_[1], drange(I(0), vlen(pts)), lambda b: lens_point(int(fish), vget(pts, b), r, t, K, D))
                self.outmat(ex, st, vals[o], mkpts)
                return None
            raise Unsupported('projectPoints of ' + str(pts.sort))
        if name in ('cv::fisheye::undistortPoints', 'cv::undistortPoints') and isinstance(self.inmat(ex, st, vals[0]).sort, tuple):
            # one undistorted point per image point, each a function of that point and the lens
            ex.trusted.add(name)
            pts, K, D = [self.inmat(ex, st, vals[j]) for j in (0, 2, 3)]
            rest = tuple(x for x in (default('M') if isinstance(v, Py) and v.kind == 'noarray' else self.inmat(ex, st, v) for v in vals[4:6]))
            def mkund(so_):
                if so_[0] != 'vec': raise Unsupported('undistortPoints output')
                import spec
                return spec.collect(so_[1], drange(I(0), vlen(pts)), lambda b: undistorted(name, vget(pts, b), K, D, rest))
            self.outmat(ex, st, vals[1], mkund)
            return None
        if name in EXTERN:
            return self.extern(ex, st, name, vals, so)
        return NotImplemented

    def hidden_inputs(self, ex, st, name, vals): return []
    def extern(self, ex, st, name, vals, so):
        """uninterpreted library function: outputs are functions of the inputs"""
        ex.trusted.add(name)
        outs, inout = EXTERN[name]
        n = len(vals)
        ins = []
        for i, v in enumerate(vals):
            if i in outs and i not in inout: continue
            if isinstance(v, Py) and v.kind == 'noarray': ins.append(default('M')); continue
            x = ex.val(st, v)
            if isinstance(x, Comma): x = self.comma_mat(x)
            if isinstance(x, Ptr): x = ex.addr(st, x)
            if isinstance(x, Iter): raise Unsupported('iterator passed to ' + name)
            if not isinstance(x, T): raise Unsupported('argument of %s' % name)
            if x.op == 'ctor' and x.args[0] == 'cv::TermCriteria': continue     # when to stop, not what to solve
            ins.append(x)
        ins += self.hidden_inputs(ex, st, name, vals)
        call = mkraw('call:' + name, tuple(ins), 'C')
        for i in outs:
            if i < n and not (isinstance(vals[i], Py) and vals[i].kind == 'noarray'):
                self.outmat(ex, st, vals[i], lambda s, i=i: mkraw('out', (call, i), s))
        if so == ('O', 'void'): return None
        return mkraw('ret', (call,), so)

    def call_ext(self, ex, st, name, vals, so, targs=None, ty=None):
        if name in OPAQUE_CALLS:
            args = []
            for v in vals:
                x = ex.val(st, v)
                if isinstance(x, Ptr): x = ex.addr(st, x)
                if isinstance(x, T): args.append(x)
            ex.trusted.add(name)
            return mkraw('call:' + name, tuple(args), so)
        return NotImplemented

def mkfind(m, k): return mkraw('mfind', (m, k, mhas(m, k)), k.sort)

def mkfindpos(dom, f, end):
    """position found by std::find: first match, or end"""
    return ite(dexists(dom, f), dfirst(dom, f), end)

def lens_point(fish, p, r, t, K, D):
    return mkraw('fisheye' if fish else 'pinhole', (p, r, t, K, D), ('st', 'Point2', 'R', 'R'))

def undistorted(fn, p, K, D, rest=()):
    rest = tuple(x for x in rest if not (shape(x) and shape(x)[0] * shape(x)[1] == 0))
    return mkraw('undistort:' + fn, (p, K, D) + rest, ('st', 'Point2', 'R', 'R'))

def toiter(x):
    if isinstance(x, Ptr): return Iter(x.loc, 'arr' if x.loc.sort[0] == 'arr' else 'vec', x.off)
    return x

def shas(s, x):
    if s.op == 'snil': return FALSE
    if s.op == 'sins': return or_(eq(s.args[1], x), shas(s.args[0], x))
    return mkraw('shas', (s, x), 'B')

def scat(a, b):
    l = []
    for x in (a, b):
        if x.sort != 'S': x = mkraw('tostr', (x,), 'S')
        l.extend(x.args if x.op == 'scat' else (x,))
    out = []
    for x in l:
        if out and out[-1].op == 'str' and x.op == 'str': out[-1] = S(out[-1].args[0] + x.args[0])
        elif x.op == 'str' and x.args[0] == '': continue
        else: out.append(x)
    if not out: return S('')
    if len(out) == 1: return out[0]
    return mkraw('scat', tuple(out), 'S')

def depth_of(t):
    if t.op == 'int':
        return {6: 'd', 5: 'f', 0: 'u', 4: 'i'}.get(t.args[0] & 7)
    return None

# name -> (output argument positions, those of them that are also read)
EXTERN = {
    'cv::solvePnP': ((4, 5), (4, 5)), 'cv::solvePnPRansac': ((4, 5, 10), (4, 5)),
    'cv::fisheye::undistortPoints': ((1,), ()), 'cv::undistortPoints': ((1,), ()),
    'cv::calibrateHandEye': ((4, 5), ()), 'cv::kmeans': ((2, 6), (2,)),
    'cv::SVDecomp': ((1, 2, 3), ()), 'cv::fitLine': ((1,), ()),
    'cv::calibrateCamera': ((3, 4, 5, 6), (3, 4)), 'cv::fisheye::calibrate': ((3, 4, 5, 6), (3, 4)),
    'cv::initCameraMatrix2D': ((), ()), 'cv::filter2D': ((1,), ()),
    'cv::cvtColor': ((1,), ()), 'cv::glob': ((1,), ()), 'cv::imread': ((), ()), 'cv::circle': ((0,), (0,)),
    'cv::aruco::detectMarkers': ((2, 3, 5), ()), 'cv::aruco::interpolateCornersCharuco': ((4, 5), ()),
    'cv::aruco::getPredefinedDictionary': ((), ()),
}
OPAQUE_CTOR = {'boost::asio::thread_pool', 'cv::TermCriteria', 'std::random_device', 'cv::RNG', 'std::bernoulli_distribution', 'cv::FileNode'}
OPAQUE_CALLS = {'cv::getTickCount', 'time', 'std::chrono::system_clock::now'}
def write_mat(self, st, loc, content):
    if isinstance(loc, Loc) and not loc.path and isinstance(st.d.get(loc.root), T) and st.d[loc.root].op == 'buf':
        # push_back may reallocate: other headers keep the old rows
        st.d[loc.root] = self.newbuf(st, content)
    else: self.write(st, loc, content)
Executor.write_mat = write_mat

def _acc_shape(M):
    evs = M.args[1]
    if all(e[2] in ('madd', 'mset') or (e[2] in ('mulL', 'mulR') and shape(e[3][0]) and shape(e[3][0])[0] == shape(e[3][0])[1]) for e in evs): return shape(M.args[0])
SHAPE_RULES['acc'] = _acc_shape
OUT_SHAPES = {('cv::calibrateHandEye', 4): (3, 3, 'd'), ('cv::calibrateHandEye', 5): (3, 1, 'd')}
SHAPE_RULES['out'] = lambda M: OUT_SHAPES.get((M.args[0].op[5:], M.args[1].args[0] if isinstance(M.args[1], T) else M.args[1]))

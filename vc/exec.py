"""Symbolic executor / VC generator: turns the AST of a real function into the
term-level summary of its effect (final value of every location it may change
and the returned value), using callee contracts at calls and the loop rule of
loops.py at loops."""
from terms import *
from front import freeze
import terms as tm

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ sorts
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
        'unsigned char', 'long long', 'unsigned long long', 'size_t'}
POD = {'McCalib::SaddlePoint'}
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
_records = {}

def set_records(r):
    _records.clear(); _records.update(r)

def is_object_type(t):
    return isinstance(t, str) and (t in _records and t not in POD)

BGRAPH = ('st', 'BGraph', ('vec', 'S'), ('vec', ('st', 'BEdge', 'I', 'I', 'R')))   # vertex names, edges
def sort_of(t):
    t = freeze(t)
    if isinstance(t, str):
        if t in INTS: return 'I'
        if t in ('float', 'double', 'long double'): return 'R'
        if t == 'bool': return 'B'
        if t in ('std::filesystem::path',): return 'S'
        if t in ('cv::Mat', 'cv::MatExpr'): return 'M'
        if t == 'ceres::Problem': return ('vec', 'Ref')     # its residual blocks and fixed parameters, in order
        if t in POD: return ('st', t) + tuple(sort_of(f[1]) for f in _records[t])
        return ('O', t)
    h = t[0]
    if h in ('&', '&&'): return sort_of(t[1])
    if h == '*':
        return 'Ref'
    if h == 'enum': return 'I'
    if h in ('std::shared_ptr', 'std::weak_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr', 'cv::Ptr', 'boost::shared_ptr'): return 'Ref'
    if h == 'std::vector': return ('vec', sort_of(t[1]))
    if h in ('std::map', 'std::unordered_map'): return ('map', sort_of(t[1]), sort_of(t[2]))
    if h in ('std::set', 'std::unordered_set'): return ('set', sort_of(t[1]))
    if h == 'std::pair': return ('st', 'pair', sort_of(t[1]), sort_of(t[2]))
    if h == 'cv::Point_': return ('st', 'Point2', 'R', 'R') if t[1] in ('float', 'double') else ('st', 'Point2', 'I', 'I')
    if h == 'cv::Point3_': return ('st', 'Point3', 'R', 'R', 'R')
    if h == 'cv::Size_': return ('st', 'Size', sort_of(t[1]), sort_of(t[1]))
    if h == 'cv::Scalar_': return ('arr', 4, 'R')
    if h == 'cv::Vec': return ('arr', t[2], sort_of(t[1]))
    if h == 'cv::Matx': return 'M'
    if h == 'std::array': return ('arr', t[2], sort_of(t[1]))
    if h == 'arr': return ('arr', t[2], sort_of(t[1]))
    if h == 'std::basic_string': return 'S'
    if h == 'cv::Mat_': return 'M'
    if h == 'boost::adjacency_list': return BGRAPH
    if h in ('std::basic_stringstream', 'std::basic_ostringstream'): return ('st', 'Stream', 'S', 'I', 'I')
    if h == 'boost::property': return sort_of(t[2])
    if h in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator'): return ('O', 'iter')
    return ('O', str(t))

def strip_ref(t):
    t = freeze(t)
    return t[1] if isinstance(t, tuple) and t and t[0] in ('&', '&&') else t
def is_ref(t): return isinstance(t, (list, tuple)) and len(t) > 0 and t[0] in ('&', '&&')
def pointee(t):
    t = strip_ref(t)
    if isinstance(t, tuple) and len(t) > 1: return t[1]
    return None

FIELD_IDX = {'first': 0, 'second': 1, 'x': 0, 'y': 1, 'z': 2, 'width': 0, 'height': 1}

# ------------------------------------------------------------- value objects
class Loc:
    __slots__ = ('root', 'path', 'sort')
    def __init__(self, root, path, sort): self.root, self.path, self.sort = root, tuple(path), sort
    def __repr__(self): return 'Loc(%s,%s)' % (self.root, self.path)
    def __eq__(self, o): return isinstance(o, Loc) and self.root == o.root and self.path == o.path
    def __hash__(self): return hash((self.root, self.path))
class Ptr:
    __slots__ = ('loc', 'off')
    def __init__(self, loc, off): self.loc, self.off = loc, off
    def __eq__(self, o): return isinstance(o, Ptr) and self.loc == o.loc and self.off is o.off
    def __hash__(self): return hash((self.loc, self.off))
# pointer into a matrix: element number `off` counted from the beginning of row `row` (rows are stored one after the other)
MPTR = {}
def mptr(loc, row):
    tag = 'MPtr@%s' % (loc,)
    MPTR[tag] = loc
    return mk(('st', tag, 'I', 'I'), row, I(0))
def is_mptr(v): return isinstance(v, T) and isinstance(v.sort, tuple) and v.sort[0] == 'st' and str(v.sort[1]).startswith('MPtr@')
def mptr_add(p, n): return mk(p.sort, sel(p, 0), add(sel(p, 1), n))
def lin(M, r, o):
    if M.op == 'ite': return ite(M.args[0], lin(M.args[1], r, o), lin(M.args[2], r, o))
    if M.op == 'mat' and r.op == o.op == 'int':
        rows, cols, d = M.args[0]
        k = r.args[0] * cols + o.args[0]
        if 0 <= k < rows * cols: return M.args[1 + k]
    if M.op == 'mat': return mkraw('lin', (M, r, o), 'R')
    if mcols(M) is I(1): r, o = add(r, o), I(0)
    return tm.at(M, r, o)

class Iter:
    __slots__ = ('loc', 'kind', 'pos')
    def __init__(self, loc, kind, pos): self.loc, self.kind, self.pos = loc, kind, pos
    def __eq__(self, o): return isinstance(o, Iter) and self.loc == o.loc and self.kind == o.kind and self.pos is o.pos
    def __hash__(self): return hash((self.kind, self.pos))
class Obj:
    __slots__ = ('ref', 'cls')
    def __init__(self, ref, cls): self.ref, self.cls = ref, cls
    def __eq__(self, o): return isinstance(o, Obj) and self.ref is o.ref
    def __hash__(self): return hash(self.ref)
class Lam:
    def __init__(self, node, frame, this): self.node, self.frame, self.this, self.inits = node, frame, this, {}
class Fn:
    def __init__(self, name): self.name = name
class Comma:
    """cv::Mat_ << a, b, c under construction"""
    def __init__(self, shape, vals): self.shape, self.vals = shape, vals
def constant_init(e):
    if isinstance(e, (list, tuple)):
        if e and e[0] in ('var', 'this', 'lambda'): return False
        return all(constant_init(x) for x in e)
    return True
def static_variables(prog, F, seen=None):
    """variables that keep their value between calls, in a function and those of the program it calls"""
    seen = set() if seen is None else seen
    if F is None or id(F) in seen: return set()
    seen.add(id(F))
    r = set()
    def go(e):
        if not isinstance(e, (list, tuple)) or not e: return
        if e[0] == 'var' and len(e) > 4 and e[4] and not prog.globals.get(e[2], {'const': True}).get('const'): r.add(e[2])
        if e[0] == 'vardecl' and (e[5] == 1 or e[5] == 2 and not constant_init(e[4])): r.add(e[2])
        for n in (e[1:3] if e[0] in ('call', 'mcall', 'opcall', 'construct') else ()):
            if isinstance(n, str):
                for f in prog.byname.get(n, ()): r.update(static_variables(prog, f, seen))
        for x in e: go(x)
    go(F['body'])
    return r
class Py:
    """any other executor-level value"""
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)

class State:
    __slots__ = ('d', 'pc')
    def __init__(self, d=None, pc=()): self.d = d if d is not None else {}; self.pc = pc
    def clone(self): return State(dict(self.d), self.pc)
    def assume(self, c):
        if c is TRUE: return self
        if c.op == 'and':
            for x in c.args: self.assume(x)
            return self
        if c not in self.pc: self.pc = self.pc + (c,)
        return self
    def cond(self): return and_(*self.pc)

class Out:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val

class Frame:
    __slots__ = ('n', 'this', 'fn', 'cls', 'statics')
    def __init__(self, n, this, fn): self.n, self.this, self.fn = n, this, fn

class Executor:
    def __init__(self, prog, contracts, lib, inline_depth=6):
        self.prog, self.contracts, self.lib = prog, contracts, lib
        self.nframe = 0
        self.binders = []        # binders of the enclosing loops
        self.depth = inline_depth
        self.stack = []
        self.trusted = set()     # library contracts used
        self.used = set()        # callee contracts used
        self.inlined = set()
        self.nloops = 0
        self.checks = []         # side obligations (name, hyps, goal)
        self.top = None
        self.topF = None
        self.loop_hook = None
        self.rank = None        # termination measure: rank(before, after) -> goal

    nrnd = None
    witness = None
    steps = ()               # functions under contract whose effect is left opaque at calls
    reads = None             # the columns read, if wanted
    monitor = None           # of threads (threads.py)
    trace = None             # (classes whose methods are recorded, methods of interest)
    bounds = False
    divide = None            # every divisor has to have at least this magnitude
    def rnd(self, kind='d'):
        """name of one random draw: arbitrary but fixed, distinct for every call and loop iteration"""
        if self.nrnd is None: self.nrnd = {}
        n = self.nrnd[kind] = self.nrnd.get(kind, 0) + 1
        return mkraw('rnd', (kind, I(n)) + tuple(self.binders), 'I')

    # ---------------------------------------------------------------- state
    def root_sort(self, root):
        if root[0] == 'h': return ('hp', self.field_sort(root[1], root[2]))
        raise Unsupported('root ' + str(root))
    def field_type(self, cls, f):
        for (n, t, init) in self.prog.records.get(cls, ()):
            if n == f: return t
        return None
    def field_sort(self, cls, f):
        if (cls, f) in GHOST_FIELDS: return GHOST_FIELDS[(cls, f)]
        t = self.field_type(cls, f)
        if t is None: raise Unsupported('field %s::%s' % (cls, f))
        return sort_of(t)
    def getroot(self, st, root):
        if self.reads is not None and root[0] in ('h', 'g'): self.reads.add(root)
        v = st.d.get(root)
        if v is None:
            if root[0] == 'h':
                v = sym('%s.%s' % (root[1].split('::')[-1], root[2]), ('hp', self.field_sort(root[1], root[2])))
            elif root[0] == 'g':
                v = sym('ghost.' + root[1], GHOSTS[root[1]])
            else:
                raise Unsupported('read of unbound %s' % (root,))
        return v

    def deref(self, st, v):
        """matrix variable -> matrix content"""
        if isinstance(v, T) and v.op == 'buf': return st.d[('b', v.args[0])]
        return v

    def read(self, st, loc):
        if self.monitor is not None: self.monitor.access(self, st, loc.root, False)
        v = self.getroot(st, loc.root)
        for p in loc.path:
            v = self.deref(st, v)
            if not isinstance(v, T): raise Unsupported('path into %s' % type(v).__name__)
            v = self.step(v, p)
        return self.deref(st, v) if isinstance(v, T) else v

    def step(self, v, p):
        k = p[0]
        if k == 'f': return sel(v, p[1])
        if k == 'a': return asel(v, p[1])
        if k == 'v': return vget(v, p[1])
        if k in ('m', 'h'): return mget(v, p[1])
        if k == 'e': return mk(('st', 'pair', p[1].sort, tm.vsort_of(v)), p[1], mget(v, p[1]))
        if k == 'at': return at(v, p[1], p[2])
        if k == 'at1': return self.at1(v, p[1])
        if k == 'lin': return lin(v, p[1], p[2])
        if k == 'sub': return self.lib.submat(self, v, [p[1], p[2]])
        if k == 'row': return uf_row(v, p[1])
        if k == 'col': return uf_col(v, p[1])
        raise Unsupported('step ' + k)
    def at1(self, v, i):
        s = shape(v)
        if s:
            if s[1] == 1 and i.op == 'int': return at(v, i, I(0))
            if s[0] == 1 and i.op == 'int': return at(v, I(0), i)
            if s[1] == 1: return at(v, i, I(0))
            if s[0] == 1: return at(v, I(0), i)
        if v.op == 'ite': return ite(v.args[0], self.at1(v.args[1], i), self.at1(v.args[2], i))
        return mkraw('at1', (v, i), 'R')

    def put(self, v, path, x):
        if not path: return x
        p, rest = path[0], path[1:]
        k = p[0]
        if k == 'e':   # entry pair: only .second is writable
            if not rest or rest[0] != ('f', 1): raise Unsupported('write to map key')
            return mput(v, p[1], self.put(mget(v, p[1]), rest[1:], x))
        old = self.step(v, p) if rest else None
        nv = self.put(old, rest, x) if rest else x
        if k == 'f': return upd(v, p[1], nv)
        if k == 'a': return aset(v, p[1], nv)
        if k == 'v': return vset(v, p[1], nv)
        if k in ('m', 'h'): return mput(v, p[1], nv)
        if k == 'at': return mset(v, p[1], p[2], nv)
        if k == 'lin': return mkraw('mset', (v, p[1], p[2], nv), 'M')
        if k == 'at1':
            s = shape(v)
            if s and s[1] == 1: return mset(v, p[1], I(0), nv)
            if s and s[0] == 1: return mset(v, I(0), p[1], nv)
        if k == 'sub':
            s = shape(v); y = shape(nv)
            rs = p[1:]
            if s and y and all(r.args[0].op == 'int' and r.args[1].op == 'int' for r in rs):
                r0, r1 = [x.args[0] for x in rs[0].args]; c0, c1 = [x.args[0] for x in rs[1].args]
                if y[:2] == (r1 - r0, c1 - c0):
                    L = list(tm.entries(v).args[1:]); N = tm.entries(nv)
                    for i in range(r0, r1):
                        for j in range(c0, c1):
                            L[i * s[1] + j] = at(nv, I(i - r0), I(j - c0))
                    return mat(s, L)
        raise Unsupported('write through ' + k)

    def write(self, st, loc, x):
        if isinstance(x, Loc): x = self.read(st, x)
        if isinstance(loc, Obj): raise Unsupported('object assignment')
        if not isinstance(loc, Loc): raise Unsupported('write to %s' % type(loc).__name__)
        root = loc.root
        if self.monitor is not None: self.monitor.access(self, st, root, True)
        if not loc.path:
            cur = st.d.get(root)
            if loc.sort == 'M' and root[0] == 'v':
                self.bindmat(st, root, x)
                return
            if isinstance(x, T):
                x = self.deref(st, x)
                x = self.coerce(x, loc.sort)
            st.d[root] = x
            return
        cur = self.getroot(st, root)
        if isinstance(x, T):
            x = self.deref(st, x)
        if isinstance(cur, T) and cur.op == 'buf':
            b = ('b', cur.args[0])
            if st.d.get(('esc', cur.args[0])): raise Unsupported('in-place write to a matrix that is shared')
            st.d[b] = self.put(st.d[b], loc.path, self.coerce(x, loc.sort))
            return
        if not isinstance(cur, T): raise Unsupported('write into %s' % type(cur).__name__)
        if not isinstance(x, T): raise Unsupported('store of %s' % type(x).__name__)
        # matrices inside containers are written only whole
        if any(p[0] in ('at', 'at1', 'row', 'col', 'lin') for p in loc.path):
            raise Unsupported('in-place write to a stored matrix')
        st.d[root] = self.put(cur, loc.path, self.coerce(x, loc.sort))

    def coerce(self, x, sort):
        if not isinstance(x, T) or sort is None: return x
        if x.sort == sort: return x
        if sort == 'R' and x.sort == 'I': return toreal(x)
        if sort == 'R' and x.sort == 'B': return ite(x, Rl(1), Rl(0))
        if sort == 'I' and x.sort == 'B': return ite(x, I(1), I(0))
        if sort == 'I' and x.sort == 'R': return trunc(x)
        if sort == 'B' and x.sort in ('I', 'R'): return ne(x, num(0, x.sort))
        if isinstance(sort, tuple) and isinstance(x.sort, tuple):
            if sort[0] in ('st', 'arr') and x.sort[0] in ('st', 'arr') and nfields(sort) == nfields(x.sort):
                return mk(sort, *[self.coerce(sel(x, i), fsort(sort, i)) for i in range(nfields(sort))])
            if sort[0] == 'vec' and x.op == 'vnil': return vnil(sort[1])
            if sort[0] == 'vec' and x.op == 'vpush' and x.sort[0] == 'vec':
                return vpush(self.coerce(x.args[0], sort), self.coerce(x.args[1], sort[1]))
            if sort[0] == 'vec' and x.op == 'vrep': return vrep(x.args[0], self.coerce(x.args[1], sort[1]))
            if sort[0] == 'map' and x.op == 'mnil': return mnil(sort[1], sort[2])
            if sort[0] == 'O' or x.sort[0] == 'O': return x
            if sort[0] == 'vec' and x.sort[0] == 'vec':
                b = bvar('k', 'I')
                return acc(vnil(sort[1]), [(((b, drange(I(0), vlen(x))),), TRUE, 'push', (self.coerce(vget(x, b), sort[1]),))])
        return x

    _buf = 0
    def newbuf(self, st, content):
        Executor._buf += 1
        n = Executor._buf
        st.d[('b', n)] = content
        return mkraw('buf', (n,), 'M')

    def bindmat(self, st, root, x):
        """cv::Mat header assignment: shares the buffer of an lvalue source"""
        if isinstance(x, T) and x.op == 'buf': st.d[root] = x
        else: st.d[root] = self.newbuf(st, x)

    def mat_inplace(self, st, loc, content):
        """library call writing into an output matrix: Mat::create reuses the
        buffer when shape and type agree"""
        cur = st.d.get(loc.root) if not loc.path else None
        if cur is not None and isinstance(cur, T) and cur.op == 'buf':
            n = cur.args[0]
            old = st.d[('b', n)]
            so, sn = shape(old), shape(content)
            empty = old.op == 'mat' and old.args[0][0] == 0
            differ = so and sn and so != sn
            if empty or differ:
                st.d[loc.root] = self.newbuf(st, content)
            else:
                if st.d.get(('esc', n)):
                    raise Unsupported('library call writes in place into a shared matrix')
                st.d[('b', n)] = content
        else:
            self.write(st, loc, content)

    def escape(self, st, v):
        if isinstance(v, T) and v.op == 'buf':
            st.d[('esc', v.args[0])] = True
            return st.d[('b', v.args[0])]
        return v

    # ------------------------------------------------------------ rvalues
    def val(self, st, v):
        """glvalue/python value -> term (or executor value)"""
        if isinstance(v, Loc):
            return self.read(st, v)
        if isinstance(v, T): return self.deref(st, v)
        if isinstance(v, Obj): return v.ref
        if isinstance(v, Py) and v.kind == 'opaquefield': return ogetf(self.val(st, v.loc), v.field, v.sort)
        return v
    def hdr(self, st, v):
        """like val, but a matrix lvalue yields its header (buffer)"""
        if isinstance(v, Loc) and v.sort == 'M':
            if not v.path:
                x = self.getroot(st, v.root)
                if isinstance(x, T) and x.op == 'buf': return x
            c = self.read(st, v)
            b = self.newbuf(st, c)
            st.d[('esc', b.args[0])] = True
            x = self.getroot(st, v.root)
            if isinstance(x, T) and x.op == 'buf': st.d[('esc', x.args[0])] = True
            return b
        if isinstance(v, T) and v.op == 'buf': return v
        return self.val(st, v)
    def term(self, st, v):
        x = self.val(st, v)
        if not isinstance(x, T):
            if isinstance(x, Ptr): return self.addr(st, x)
            raise Unsupported('value of kind %s where a term is needed' % type(x).__name__)
        return x
    def addr(self, st, p):
        """a pointer as a term (identity of the storage it points to)"""
        l = p.loc
        args = []
        for q in l.path:
            args.append(q[0]); args.extend(q[1:])
        return mkraw('addr', (('/'.join(str(x) for x in l.root)),) + tuple(args) + (p.off,), 'Ref')
    def as_int(self, t):
        if t.sort == 'B': return ite(t, I(1), I(0))
        if t.sort == 'R': return trunc(t)
        return t
    def boolean(self, st, v):
        x = self.val(st, v)
        if isinstance(x, Ptr): return TRUE
        if not isinstance(x, T): raise Unsupported('condition of kind %s' % type(x).__name__)
        if x.sort == 'B': return x
        if x.sort in ('I', 'R'): return ne(x, num(0, x.sort))
        if x.sort == 'Ref': return nonnull(x)
        raise Unsupported('condition of sort %s' % (x.sort,))

    # --------------------------------------------------------- statements
    def block(self, st, fr, stmts):
        if self.monitor is not None and any(s[0] == 'decl' and any(d[0] == 'vardecl' and str(freeze(d[3])[0] if isinstance(d[3], (list, tuple)) else d[3]) in LOCKS for d in s[2]) for s in stmts):
            import threads
            held = st.d.get(threads.HELD, FALSE)
            outs = self.block2(st, fr, stmts)
            for o in outs: o.st.d[threads.HELD] = held        # the lock objects of the block release it
            return outs
        return self.block2(st, fr, stmts)
    def block2(self, st, fr, stmts):
        outs = []
        live = [st]
        for s in stmts:
            if not live: break
            nxt = []
            for x in live:
                for o in self.stmt(x, fr, s):
                    if o.kind == 'n': nxt.append(o.st)
                    else: outs.append(o)
            live = self.merge(nxt)
        outs.extend(Out('n', s) for s in live)
        return outs

    def merge(self, sts):
        """join states that differ only in terms; keys local to one side are dropped"""
        while len(sts) > 1:
            a = sts.pop(0); b = sts.pop(0)
            m = self.merge2(a, b)
            if m is None:
                # cannot merge: keep apart, try others
                rest = self.merge(sts + [b]) if sts else [b]
                r = [a] + rest
                if len(r) > 24: raise Unsupported('too many paths')
                return r
            sts.insert(0, m)
        return sts

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        base = a.pc[:n]
        # order-insensitive common part
        bs = set(b.pc[n:])
        common = [x for x in a.pc[n:] if x in bs]
        ca = and_(*[x for x in a.pc[n:] if x not in common])
        cs = set(common)
        cb = and_(*[x for x in b.pc[n:] if x not in cs])
        if ca is FALSE: return b
        if cb is FALSE: return a
        base = base + tuple(common)
        r = State({}, base)
        c = ca
        if len(show_size(cb)) < len(show_size(ca)) and False: c = not_(cb)
        for k in set(a.d) | set(b.d):
            va, vb = a.d.get(k), b.d.get(k)
            if va is vb: r.d[k] = va; continue
            if k[0] == 'n':
                r.d[k] = max(va or 0, vb or 0); continue
            if va is None or vb is None:
                if k[0] in ('h', 'g'):
                    if va is None: va = self.getroot(a, k)
                    if vb is None: vb = self.getroot(b, k)
                elif k[0] == 'esc':
                    r.d[k] = True; continue
                elif k[0] == 'b':
                    r.d[k] = va if va is not None else vb; continue
                else: continue
            if isinstance(va, T) and isinstance(vb, T):
                if va.op == 'buf' and vb.op == 'buf':
                    r.d[k] = ('join', va, vb); continue
                if va.sort != vb.sort: return None
                r.d[k] = ite(c, va, vb)
            elif type(va) == type(vb) and va == vb: r.d[k] = va
            elif k[0] == 'v' and k[1] == 'tmp': continue
            else: return None
        for k, v in list(r.d.items()):
            if isinstance(v, tuple) and v and v[0] == 'join':
                va, vb = v[1], v[2]
                x = ite(c, a.d[('b', va.args[0])], b.d[('b', vb.args[0])])
                # two different buffers may be shared with other variables: join by value
                r.d[k] = self.newbuf(r, x)
                if a.d.get(('esc', va.args[0])) or b.d.get(('esc', vb.args[0])):
                    r.d[('esc', r.d[k].args[0])] = True
        r.assume(or_(ca, cb))
        return r

    def stmt(self, st, fr, s):
        k = s[0]
        if k == 'block': return self.block(st, fr, s[2])
        if k in ('log', 'null'): return [Out('n', st)]
        if k == 'expr':
            if self.monitor is not None:
                import threads
                held, n = st.d.get(threads.HELD, FALSE), self.monitor.nlocks
                outs = self.eval_stmt(st, fr, s[2])
                if self.monitor.nlocks != n:       # a temporary lock object is gone at the end of the statement
                    for o in outs: o.st.d[threads.HELD] = held
                return outs
            return self.eval_stmt(st, fr, s[2])
        if k == 'decl':
            for d in s[2]:
                if d[0] != 'vardecl': raise Unsupported('decl %s' % d[1])
                self.vardecl(st, fr, d)
            return [Out('n', st)]
        if k == 'if': return self.if_(st, fr, s)
        if k == 'return':
            if s[2] is None: return [Out('return', st, None)]
            v = self.ev(st, fr, s[2])
            if is_ref(fr.fn['ret']): return [Out('return', st, v)]
            if isinstance(v, (Loc,)) and v.sort == 'M':
                v = self.hdr(st, v)
                if v.op == 'buf' and st.d.get(('esc', v.args[0])): v = self.deref(st, v)
                elif v.op == 'buf': v = self.deref(st, v)
            else: v = self.val(st, v)
            if isinstance(v, T): v = self.coerce(v, sort_of(fr.fn['ret']))
            return [Out('return', st, v)]
        if k == 'break': return [Out('break', st)]
        if k == 'continue': return [Out('continue', st)]
        if k in ('for', 'forrange', 'while', 'do'):
            import loops
            return loops.run(self, st, fr, s)
        if k == 'switch':
            return self.switch(st, fr, s)
        if k == 'try': return self.stmt(st, fr, s[2])
        raise Unsupported('%s' % (s[:3],))

    def switch(self, st, fr, s):
        c = self.as_int(self.term(st, self.ev(st, fr, s[2])))
        body = s[3][2]
        # flatten nested case labels
        items = []
        for x in body:
            labels = []
            while isinstance(x, list) and x[0] in ('case', 'defaultcase'):
                if x[0] == 'case': labels.append(self.term(st, self.ev(st, fr, x[2]))); x = x[3]
                else: labels.append(None); x = x[2]
            items.append((labels, x))
        outs = []
        alllab = [l for ls, _ in items for l in ls if l is not None]
        has_default = any(None in ls for ls, _ in items)
        entries = []
        for i, (ls, _) in enumerate(items):
            for l in ls:
                cond = eq(c, l) if l is not None else and_(*[ne(c, y) for y in alllab])
                entries.append((cond, i))
        if not has_default: entries.append((and_(*[ne(c, y) for y in alllab]), len(items)))
        normal = []
        for cond, i in entries:
            if cond is FALSE: continue
            s2 = st.clone().assume(cond)
            for o in self.block(s2, fr, [x for _, x in items[i:]]):
                if o.kind in ('n', 'break'): normal.append(o.st)
                else: outs.append(o)
        outs.extend(Out('n', x) for x in self.merge(normal))
        return outs

    def if_(self, st, fr, s):
        _, ln, init, cv, cond, th, el, cx = s
        if init: 
            outs = self.stmt(st, fr, init)
            st = outs[0].st
        if cv: self.vardecl(st, fr, cv)
        outs = []
        # short-circuit conditions with side effects are not split further
        c = self.boolean(st, self.ev(st, fr, cond))
        c = self.simp(st, c)
        if c is not FALSE:
            s1 = st.clone().assume(c)
            if th is None: outs.append(Out('n', s1))
            else: outs.extend(self.stmt(s1, fr, th))
        if c is not TRUE:
            s2 = st.clone().assume(not_(c))
            if el is None: outs.append(Out('n', s2))
            else: outs.extend(self.stmt(s2, fr, el))
        normal = self.merge([o.st for o in outs if o.kind == 'n'])
        return [o for o in outs if o.kind != 'n'] + [Out('n', x) for x in normal]

    def simp(self, st, c):
        if c.op == 'bool': return c
        if c in st.pc: return TRUE
        n = not_(c)
        if n in st.pc: return FALSE
        if c.op == 'and':
            return and_(*[x for x in c.args if x not in st.pc])
        return c

    def vardecl(self, st, fr, d):
        _, vid, name, ty, init, static, binds, style = d
        key = ('v', fr.n, vid)
        ty = freeze(ty)
        so = sort_of(ty)
        if is_ref(ty):
            v = self.ev(st, fr, init)
            if isinstance(v, (Loc, Obj, Lam, Iter, Ptr, Py)): st.d[key] = ('ref', v)
            else:
                st.d[key] = self.newbuf(st, v) if isinstance(v, T) and v.sort == 'M' and v.op != 'buf' else v
        elif is_object_type(ty):
            v = self.ev(st, fr, init) if init else None
            if not isinstance(v, Obj): raise Unsupported('object initialiser for %s' % (ty,))
            st.d[key] = v
        else:
            if static == 1 or static == 2 and not constant_init(init):     # keeps what an earlier call left in it
                v = fresh('static:' + name, so)
                if self.monitor is not None: self.monitor.static(self, st, name)
            elif init is None: v = self.undef(so, ty)
            else: v = self.ev(st, fr, init)
            if so == 'M':
                v = self.hdr(st, v)
                if isinstance(v, T): self.bindmat(st, key, v)
                else: st.d[key] = v
            else:
                v = self.val(st, v)
                if isinstance(v, T):
                    if v.sort == 'Ref' and so == 'B': v = nonnull(v)
                    v = self.coerce(v, so)
                st.d[key] = v
        if binds:
            for bid, bname, bexp in binds:
                st.d[('v', fr.n, bid)] = ('ref', self.ev(st, fr, bexp)) if bexp else None

    def undef(self, so, ty):
        if so in ('I', 'R', 'B'): return fresh('undef', so)
        if isinstance(so, tuple) and so[0] == 'arr': return fresh('undef', so)
        return default(so)

    def eval_stmt(self, st, fr, e):
        """expression statements; calls with several outcomes are merged"""
        if e[0] == 'throw': return []
        self.ev(st, fr, e)
        return [Out('n', st)]

    # -------------------------------------------------------- expressions
    def ev(self, st, fr, e):
        return getattr(self, 'e_' + e[0], self.e_unknown)(st, fr, e)
    def e_unknown(self, st, fr, e): raise Unsupported('expression %s' % (e[:3],))
    def e_int(self, st, fr, e): return I(e[1])
    def e_bool(self, st, fr, e): return Bv(e[1])
    def e_float(self, st, fr, e): return Rl(float_const(e[1], e[2]))
    def e_str(self, st, fr, e): return S(e[1])
    def e_null(self, st, fr, e): return NULL
    def e_this(self, st, fr, e): return fr.this
    def e_rv(self, st, fr, e): return self.val(st, self.ev(st, fr, e[1]))
    def e_tmp(self, st, fr, e): return self.ev(st, fr, e[1])
    def e_default(self, st, fr, e): return self.ev(st, fr, e[1])
    def e_tobase(self, st, fr, e): return self.ev(st, fr, e[1])
    def e_stdinit(self, st, fr, e):
        return self.ev(st, fr, e[1])
    def e_zero(self, st, fr, e): return default(sort_of(e[1]))
    def e_sizeof(self, st, fr, e): return fresh('sizeof', 'I')
    def e_throw(self, st, fr, e): raise Unsupported('throw in expression')
    def e_fn(self, st, fr, e): return Fn(e[1])
    def e_lambda(self, st, fr, e):
        L = Lam(e, fr, fr.this)
        for c in e[1]:
            if len(c) > 2:      # [x = init]
                v = self.ev(st, fr, c[3])
                if not c[1]:
                    v = self.val(st, v)
                    if isinstance(v, T): v = self.coerce(self.deref(st, v), sort_of(c[2]))
                L.inits[c[0]] = v
        return L
    def e_binding(self, st, fr, e):
        k = ('v', fr.n, e[1])
        return self.lookup(st, k, e[2], None)

    def lookup(self, st, key, name, ty):
        v = st.d.get(key)
        if v is None: raise Unsupported('unbound variable %s' % name)
        if isinstance(v, tuple) and v and v[0] == 'ref': return v[1]
        if isinstance(v, (Obj, Lam)): return v
        return Loc(key, (), sort_of(ty) if ty is not None else (v.sort if isinstance(v, T) else None))

    def e_var(self, st, fr, e):
        _, vid, name, ty, glob = e
        key = ('v', fr.n, vid)
        if key in st.d: return self.lookup(st, key, name, strip_ref(ty))
        # captured variable of an enclosing function (lambda)
        for g in reversed(self.stack):
            key2 = ('v', g.n, vid)
            if key2 in st.d and getattr(g, 'n', None) is not None: return self.lookup(st, key2, name, strip_ref(ty))
        if glob:
            so = sort_of(ty)
            gd = self.prog.globals.get(name)
            if gd is not None and not gd.get('const') and not is_object_type(strip_ref(ty)) and so != 'Ref' and not (isinstance(so, tuple) and so[0] == 'O'):
                key = ('v', 'glob', name)       # any call may have changed it since
                v = fresh('global:' + name, so)
                st.d[key] = self.newbuf(st, v) if so == 'M' else v
                if self.monitor is not None: self.monitor.static(self, st, name)
                return self.lookup(st, key, name, strip_ref(ty))
            if gd is not None and gd.get('init') is not None and so in ('I', 'R', 'B', 'S'):
                return self.val(st, self.ev(st, fr, gd['init']))
            if name in ('std::cout', 'std::cerr', 'std::ignore', 'std::endl') : return Py('ostream')
            return mkraw('global', (name,), so)
        raise Unsupported('variable %s not bound' % name)

    def e_member(self, st, fr, e):
        _, base, field, arrow, owner, ty = e
        b = self.ev(st, fr, base)
        if (owner, field) in self.prog.constf:
            return self.coerce(self.term(st, self.ev(st, fr, self.prog.constf[(owner, field)])), sort_of(ty))
        if arrow:
            r = self.val(st, b)
            if isinstance(r, Iter): b = self.iter_deref(st, r)
            elif isinstance(r, Py) and r.kind == 'entry': return r.get(field)
            elif isinstance(r, T) and r.sort == 'Ref': return self.field(r, owner, field)
            elif isinstance(r, Obj): return self.field(r.ref, owner, field)
            else: raise Unsupported('-> on %s' % type(r).__name__)
        if isinstance(b, Obj): return self.field(b.ref, owner, field)
        if isinstance(b, Py) and b.kind == 'entry': return b.get(field)
        if owner in ('cv::Mat',):
            m = self.val(st, b)
            if field in ('rows', 'cols'):
                return mrows(m) if field == 'rows' else mcols(m)
            if field == 'size': return Py('matsize', m=m)
            if field == 'data': return Ptr(b, I(0)) if isinstance(b, Loc) else fresh('data', 'Ref')
            raise Unsupported('cv::Mat::' + field)
        if owner in POD:
            idx = [f[0] for f in _records[owner]].index(field)
            so = sort_of(ty)
        elif field in FIELD_IDX and (owner.startswith('std::pair') or owner in ('cv::Point_', 'cv::Point3_', 'cv::Size_', 'std::pair') or 'pair' in owner):
            idx = FIELD_IDX[field]; so = sort_of(ty)
        elif owner == 'cv::Matx' and field == 'val':
            if isinstance(b, Loc): return b
            return b
        elif isinstance(b, T) and b.sort == 'Ref': return self.field(b, owner, field)
        elif isinstance(b, Loc) and isinstance(b.sort, tuple) and b.sort[0] == 'O':
            # field of an opaque library struct (options, parameters)
            return Loc(b.root, b.path + (('f', field),), sort_of(ty)) if False else Py('opaquefield', loc=b, field=field, sort=sort_of(ty))
        else:
            raise Unsupported('member %s of %s' % (field, owner))
        if isinstance(b, Loc): return Loc(b.root, b.path + (('f', idx),), so)
        if isinstance(b, T): return sel(b, idx)
        raise Unsupported('member of %s' % type(b).__name__)

    def field(self, ref, owner, f):
        t = self.field_type(owner, f)
        if t is not None and is_object_type(t):
            return Obj(mkraw('sub', (f, ref), 'Ref'), t)
        return Loc(('h', owner, f), (('h', ref),), self.field_sort(owner, f))

    def e_sub(self, st, fr, e):
        b = self.ev(st, fr, e[1]); i = self.as_int(self.term(st, self.ev(st, fr, e[2])))
        return self.index(st, b, i)
    def within(self, st, i, n, what):
        """obligation: an element that is read exists"""
        if self.bounds and st is not None: self.checks.append(('%s index is inside its container' % what, st.pc, and_(le(I(0), i), lt(i, n))))
    def index(self, st, b, i):
        if isinstance(b, Loc):
            v0 = self.getroot(st, b.root) if not b.path else None
            if isinstance(v0, Ptr): b = v0
        if isinstance(b, Ptr):
            return Loc(b.loc.root, b.loc.path + (('a', add(b.off, i)),), b.loc.sort[2] if isinstance(b.loc.sort, tuple) and b.loc.sort[0] == 'arr' else elem_sort(b.loc.sort)) if not (isinstance(b.loc.sort, tuple) and b.loc.sort[0] == 'vec') else Loc(b.loc.root, b.loc.path + (('v', add(b.off, i)),), b.loc.sort[1])
        if isinstance(b, Loc) and is_mptr(v0): b = v0
        if is_mptr(b):
            loc = MPTR[b.sort[1]]
            r, o = sel(b, 0), add(sel(b, 1), i)
            if self.bounds and st is not None:
                M = self.read(st, loc)
                nr, nc = mrows(M), mcols(M)
                if self.bounds is True or M in self.bounds: self.within(st, r, nr, 'image row'); self.within(st, o, nc, 'image column')
            return Loc(loc.root, loc.path + (('lin', r, o),), 'R')
        if isinstance(b, Py) and b.kind == 'params': return b.get(i)
        if isinstance(b, Loc): return Loc(b.root, b.path + (('a', i),), b.sort[2])
        if isinstance(b, T) and isinstance(b.sort, tuple) and b.sort[0] == 'arr': return asel(b, i)
        if isinstance(b, T) and b.sort == 'Ref' and isinstance(i, T): return mkraw('argv', (b, i), 'S')     # arguments of main
        raise Unsupported('subscript of %s' % type(b).__name__)

    def e_decay(self, st, fr, e):
        b = self.ev(st, fr, e[1])
        if isinstance(b, T) and b.op == 'str': return b
        if isinstance(b, Loc): return Ptr(b, I(0))
        return b

    def e_un(self, st, fr, e):
        _, op, post, x, ty = e
        if op == '&':
            v = self.ev(st, fr, x)
            if isinstance(v, Loc):
                if v.path and v.path[-1][0] in ('a', 'v'):
                    p = v.path[-1]
                    base = Loc(v.root, v.path[:-1], None)
                    so = ('arr', 0, v.sort) if p[0] == 'a' else ('vec', v.sort)
                    return Ptr(Loc(v.root, v.path[:-1], so), p[1])
                if v.path and v.path[-1][0] == 'at':
                    return Py('addrloc', loc=v)
                return Py('addrloc', loc=v)
            if isinstance(v, Obj): return v.ref
            return v
        if op in ('++', '--'):
            l = self.ev(st, fr, x)
            d = 1 if op == '++' else -1
            old = self.val(st, l)
            if isinstance(old, Iter):
                nv = Iter(old.loc, old.kind, add(old.pos, I(d)) if old.kind == 'vec' else uf('mnext' if d > 0 else 'mprev', old.pos.sort, old.pos))
                if isinstance(l, Loc): st.d[l.root] = nv
                return old if post else nv
            nv = mptr_add(old, I(d)) if is_mptr(old) else add(old, num(d, old.sort))
            self.write(st, l, nv)
            return old if post else l
        v = self.ev(st, fr, x)
        if op == '*':
            v = self.val(st, v)
            if isinstance(v, Iter): return self.iter_deref(st, v)
            if isinstance(v, Ptr): return self.index(st, v, I(0))
            if isinstance(v, Py) and v.kind == 'addrloc': return v.loc
            if isinstance(v, T) and v.sort == 'Ref':
                return Obj(v, pointee(ty))
            if is_mptr(v): return self.index(st, v, I(0))
            raise Unsupported('dereference of %s %s' % (type(v).__name__, vars(v)))
        t = self.term(st, v)
        if op == '-': return neg(self.arith(t))
        if op == '+': return t
        if op == '!': return not_(self.boolean(st, t))
        if op == '~': return sub(neg(t), I(1))
        raise Unsupported('unary ' + op)

    def arith(self, t):
        if t.sort == 'B': return ite(t, I(1), I(0))
        if t.sort == 'M' or t.sort in ('I', 'R'): return t
        return t

    def binop(self, st, op, a, b, ty=None):
        if op in ('+', '-', '*', '/', '%') and a.sort in ('I', 'R', 'B') and b.sort in ('I', 'R', 'B'):
            a, b = self.arith(a), self.arith(b)
            if op == '+': return add(a, b)
            if op == '-': return sub(a, b)
            if op == '*': return mul(a, b)
            if op in ('/', '%') and self.divide and st is not None:
                e = Rl(self.divide)          # a quotient by a tiny root keeps no digits
                self.checks.append(('divisor is not zero', st.pc, ne(b, I(0))) if b.sort == 'I' else
                                   ('divisor is at least %s in magnitude' % self.divide, st.pc, le(Rl(self.divide ** 2), b.args[0]) if b.op == 'sqrt' else or_(le(e, b), le(b, neg(e)))))
            if op == '/':
                if a.sort == 'I' and b.sort == 'I': return idiv(a, b)
                return rdiv(a, b)
            return imod(a, b)
        if op in ('==', '!='):
            if 'Ref' in (a.sort, b.sort):
                if a is NULL: r = not_(nonnull(b))
                elif b is NULL: r = not_(nonnull(a))
                else: r = eq(a, b)
            elif a.sort == 'B' and b.sort == 'B': r = eq(a, b)
            else: r = eq(self.arith(a), self.arith(b))
            return r if op == '==' else not_(r)
        if op in ('<', '<=', '>', '>='):
            a, b = self.arith(a), self.arith(b)
            if a.sort in ('I', 'R') and b.sort in ('I', 'R'):
                return {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)
            return uf('cmp' + op, 'B', a, b)
        if op == '&&': return and_(self.boolean(st, a), self.boolean(st, b))
        if op == '||': return or_(self.boolean(st, a), self.boolean(st, b))
        if op in ('&', '|', '^', '<<', '>>'):
            if a.sort == 'B' and b.sort == 'B':
                return {'&': and_, '|': or_, '^': lambda x, y: ne(x, y)}[op](a, b)
            if a.op == 'int' and b.op == 'int':
                return I({'&': a.args[0] & b.args[0], '|': a.args[0] | b.args[0], '^': a.args[0] ^ b.args[0],
                          '<<': a.args[0] << max(b.args[0], 0), '>>': a.args[0] >> max(b.args[0], 0)}[op])
            if op in ('&', '|', '^') and a.id > b.id: a, b = b, a
            if op in '&|' and all(x.op == 'ite' and x.args[1] is I(1) and x.args[2] is I(0) for x in (a, b)):     # of two truth values
                return ite((and_ if op == '&' else or_)(a.args[0], b.args[0]), I(1), I(0))
            return uf('bit' + op, 'I', a, b)
        raise Unsupported('binary %s on %s,%s' % (op, a.sort, b.sort))

    def e_bin(self, st, fr, e):
        _, op, x, y, ty = e
        if op == ',':
            self.ev(st, fr, x); return self.ev(st, fr, y)
        if op in ('&&', '||'):
            a = self.boolean(st, self.ev(st, fr, x))
            a = self.simp(st, a)
            if op == '&&' and a is FALSE: return FALSE
            if op == '||' and a is TRUE: return TRUE
            s2 = st.clone(); s2.assume(a if op == '&&' else not_(a))
            before = dict(s2.d)
            b = self.boolean(s2, self.ev(s2, fr, y))
            for k, v in s2.d.items():
                if k[0] in ('h', 'g', 'v') and k in st.d and st.d[k] is not v and not (st.d[k] == v):
                    if isinstance(v, T) and isinstance(st.d[k], T) and v.sort == st.d[k].sort:
                        st.d[k] = ite(a if op == '&&' else not_(a), v, st.d[k])
                    else: raise Unsupported('side effect in short-circuit operand')
                elif k not in st.d:
                    if k[0] in ('h', 'g'): st.d[k] = ite(a if op == '&&' else not_(a), v, self.getroot(st, k))
                    else: st.d[k] = v
            return and_(a, b) if op == '&&' else or_(a, b)
        a = self.val(st, self.ev(st, fr, x)); b = self.val(st, self.ev(st, fr, y))
        if isinstance(a, Ptr) and isinstance(b, T) and b.sort == 'I':
            return Ptr(a.loc, add(a.off, b) if op == '+' else sub(a.off, b))
        if not isinstance(a, T) or not isinstance(b, T):
            r = self.lib.obj_binop(self, st, op, a, b)
            if r is not None: return r
            raise Unsupported('operator %s on %s' % (op, type(a).__name__))
        return self.coerce(self.binop(st, op, a, b), sort_of(ty))

    def e_assign(self, st, fr, e):
        _, op, x, y, ty = e
        v = self.ev(st, fr, y)
        l = self.ev(st, fr, x)
        v = self.val(st, v)
        if isinstance(l, Py) and l.kind == 'opaquefield':
            self.set_opaque(st, l, v); return l
        if isinstance(v, (Iter, Ptr)) and isinstance(l, Loc) and not l.path:
            st.d[l.root] = v; return l
        self.write(st, l, v)
        return l

    def set_opaque(self, st, l, v):
        old = self.val(st, l.loc)
        if not isinstance(v, T): v = fresh('opq', ('O', 'v'))
        self.write(st, l.loc, mkraw('osetf', (old, l.field, v), old.sort))

    def e_cassign(self, st, fr, e):
        _, op, x, y, ty, cty = e
        b = self.val(st, self.ev(st, fr, y))
        l = self.ev(st, fr, x)
        a = self.val(st, l)
        if is_mptr(a):
            self.write(st, l, mptr_add(a, b if op == '+=' else neg(b))); return l
        if isinstance(a, Iter):
            nv = Iter(a.loc, a.kind, add(a.pos, b) if op == '+=' else sub(a.pos, b)); st.d[l.root] = nv; return l
        if isinstance(a, Ptr):
            nv = Ptr(a.loc, add(a.off, b) if op == '+=' else sub(a.off, b)); st.d[l.root] = nv; return l
        if not isinstance(a, T) or not isinstance(b, T): raise Unsupported('compound assignment')
        r = self.binop(st, op[:-1], self.coerce(a, sort_of(cty)), b)
        self.write(st, l, self.coerce(r, sort_of(ty)))
        return l

    def e_cond(self, st, fr, e):
        _, c, x, y, ty = e
        c = self.simp(st, self.boolean(st, self.ev(st, fr, c)))
        if c is TRUE: return self.ev(st, fr, x)
        if c is FALSE: return self.ev(st, fr, y)
        s1, s2 = st.clone().assume(c), st.clone().assume(not_(c))
        a = self.val(s1, self.ev(s1, fr, x)); b = self.val(s2, self.ev(s2, fr, y))
        self.join_effects(st, s1, s2)
        if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
        if a == b: return a
        raise Unsupported('conditional on objects')

    def join_effects(self, st, s1, s2):
        """side effects of the operands of a conditional expression"""
        def same(x, y): return x is y or (not isinstance(x, T) and x == y)
        d1 = {k for k in s1.d if not same(s1.d[k], st.d.get(k))}
        d2 = {k for k in s2.d if not same(s2.d[k], st.d.get(k))}
        if not d1 and not d2: return
        if all(k[0] in ('b', 'esc') and k not in st.d for k in d1 | d2):
            for s in (s1, s2):
                for k in d1 | d2:
                    if k in s.d: st.d[k] = s.d[k]
            return
        m = self.merge([s1, s2])
        if len(m) != 1: raise Unsupported('side effects of a conditional expression')
        st.d = m[0].d

    def e_cast(self, st, fr, e):
        _, kind, x, ty = e
        v = self.ev(st, fr, x)
        v = self.val(st, v)
        if kind in ('ToVoid',): return v
        if not isinstance(v, T):
            if kind in ('PointerToBoolean',): return TRUE
            if kind in ('BitCast',): return v
            raise Unsupported('cast %s' % kind)
        if kind == 'IntegralCast':
            return self.as_int(v)
        if kind in ('IntegralToFloating',): return toreal(self.as_int(v))
        if kind == 'FloatingToIntegral': return trunc(v)
        if kind == 'FloatingCast': return v
        if kind in ('IntegralToBoolean', 'FloatingToBoolean'): return ne(self.arith(v), num(0, self.arith(v).sort))
        if kind == 'PointerToBoolean': return nonnull(v)
        if kind in ('BitCast', 'MemberPointerToBoolean'): return v
        raise Unsupported('cast %s' % kind)

    def e_initlist(self, st, fr, e):
        _, ty, elems, filler = e
        so = sort_of(ty)
        vals = [self.val(st, self.ev(st, fr, x)) for x in elems]
        if isinstance(so, tuple) and so[0] == 'arr':
            if len(vals) == 1 and isinstance(vals[0], T) and vals[0].sort == so: return vals[0]
            if len(vals) == 1 and isinstance(vals[0], T) and isinstance(vals[0].sort, tuple) and vals[0].sort[0] == 'arr':
                return self.coerce(vals[0], so)
            vals = [self.coerce(v, so[2]) for v in vals]
            while len(vals) < so[1]: vals.append(default(so[2]))
            if any(not isinstance(v, T) for v in vals): return Py('list', items=vals)
            return mk(so, *vals)
        if isinstance(so, tuple) and so[0] == 'st':
            return mk(so, *[self.coerce(v, so[2 + i]) for i, v in enumerate(vals)])
        if len(vals) == 1: return vals[0]
        if not vals: return default(so)
        raise Unsupported('initialiser list of %s' % (ty,))

    def e_new(self, st, fr, e):
        ty, init = e[1], e[2]
        if init is None: raise Unsupported('new without constructor')
        v = self.ev(st, fr, init)
        if isinstance(v, Obj): return v.ref
        return self.val(st, v)

    def alloc(self, st, cls):
        k = ('n', cls, len(self.binders))
        n = st.d.get(k, 0)
        st.d[k] = n + 1
        return mkraw('new', (cls, n, tuple(self.binders)), 'Ref')

    # -------------------------------------------------------------- calls
    def e_construct(self, st, fr, e):
        _, ty, args, sg, kind, lst, ln, cid = e
        ty = freeze(ty)
        if is_object_type(ty):
            if kind in ('copy', 'move'):
                v = self.ev(st, fr, args[0])
                if isinstance(v, Obj):
                    return self.copy_object(st, v, ty)
                if isinstance(v, T) and v.sort == 'Ref': return self.copy_object(st, Obj(v, ty), ty)
                return v
            ref = self.alloc(st, ty)
            vals = [self.ev(st, fr, a) for a in args]
            self.construct(st, ref, ty, vals, freeze(sg))
            return Obj(ref, ty)
        vals = [self.ev(st, fr, a) for a in args]
        return self.lib.construct(self, st, ty, vals, kind, freeze(sg))

    def copy_object(self, st, v, ty):
        ref = self.alloc(st, ty)
        for (f, t, _) in self.prog.records[ty]:
            if is_object_type(t): continue
            src = Loc(('h', ty, f), (('h', v.ref),), self.field_sort(ty, f))
            self.write(st, Loc(('h', ty, f), (('h', ref),), src.sort), self.read(st, src))
        for (c, f), so in GHOST_FIELDS.items():
            if c == ty:
                src = Loc(('h', ty, f), (('h', v.ref),), so)
                self.write(st, Loc(('h', ty, f), (('h', ref),), so), self.read(st, src))
        return Obj(ref, ty)

    def construct(self, st, ref, cls, vals, sg=None):
        short = cls.split('::')[-1]
        name = cls + '::' + short
        F = self.prog.find(name, sg, len(vals))
        con = self.contracts.lookup(name, len(vals)) if self.contracts else None
        if self.trace is not None and any(name.startswith(c) for c in self.trace[0]): return      # an arbitrary object
        if con and con.use and not (self.topF is F and F is not None):
            self.used.add(con.key)
            self.apply_contract(st, con, ref, vals, F)
            return
        # default member initialisers
        def dflt(f, t, init):
            if is_object_type(t):
                self.construct(st, mkraw('sub', (f, ref), 'Ref'), t, [])
                return
            so = self.field_sort(cls, f)
            if init is not None:
                v = self.val(st, self.ev(st, Frame(-1, ref, None), init))
                v = self.coerce(v, so) if isinstance(v, T) else None
                if v is None: return
            else: v = default(so) if so not in ('I', 'R', 'B') and not (isinstance(so, tuple) and so[0] == 'arr') else mkraw('undef', (cls, f, ref), so)
            self.write(st, Loc(('h', cls, f), (('h', ref),), so), v)
        if F is None:
            if vals: raise Unsupported('constructor %s' % name)
            for f, t, init in self.prog.records[cls]: dflt(f, t, init)
            for (c, f), so in GHOST_FIELDS.items():
                if c == cls: self.write(st, Loc(('h', cls, f), (('h', ref),), so), default(so))
            return
        inits = {i[0]: i for i in F['inits']}
        fr = self.new_frame(ref, F)
        self.bind_params(st, fr, F, vals)
        for f, t, init in self.prog.records[cls]:
            if f in inits and inits[f][3]:
                if is_object_type(t):
                    sub_ = mkraw('sub', (f, ref), 'Ref')
                    c = inits[f][1]
                    self.construct(st, sub_, t, [self.ev(st, fr, a) for a in c[2]], freeze(c[3]))
                else:
                    v = self.val(st, self.ev(st, fr, inits[f][1]))
                    so = self.field_sort(cls, f)
                    if not isinstance(v, T): raise Unsupported('initialiser of %s' % f)
                    self.write(st, Loc(('h', cls, f), (('h', ref),), so), self.coerce(v, so))
            else: dflt(f, t, init)
        for (c, f), so in GHOST_FIELDS.items():
            if c == cls: self.write(st, Loc(('h', cls, f), (('h', ref),), so), default(so))
        self.run_body(st, fr, F)

    def new_frame(self, this, F):
        self.nframe += 1
        return Frame(self.nframe, this, F)

    def bind_params(self, st, fr, F, vals):
        for p, v in zip(F['params'], vals):
            pid, name, ty = p
            ty = freeze(ty)
            key = ('v', fr.n, pid)
            if is_ref(ty):
                if isinstance(v, T) and v.sort == 'M' and v.op != 'buf': v = self.newbuf(st, v)
                if isinstance(v, T): 
                    st.d[key] = self.coerce(v, sort_of(ty)) if v.op != 'buf' else v
                else: st.d[key] = ('ref', v)
            elif is_object_type(ty):
                v = v if isinstance(v, Obj) else Obj(self.val(st, v), ty)
                st.d[key] = v
            elif sort_of(ty) == 'M':
                v = self.hdr(st, v)
                self.bindmat(st, key, v) if isinstance(v, T) else st.d.__setitem__(key, v)
            else:
                v = self.val(st, v)
                st.d[key] = self.coerce(v, sort_of(ty)) if isinstance(v, T) else v

    def run_body(self, st, fr, F):
        """executes a callee body in st (mutated); returns its value"""
        if len(self.stack) > 14: raise Unsupported('inlining too deep (recursion?)')
        self.stack.append(fr)
        try:
            outs = self.stmt(st.clone(), fr, F['body'])
        finally:
            self.stack.pop()
        sts, v = self.join_returns(outs, fr)
        st.d, st.pc = sts.d, sts.pc
        return v

    def join_returns(self, outs, fr):
        rets = []
        for o in outs:
            if o.kind in ('n', 'return'):
                s = o.st
                rv = o.val
                if rv is not None:
                    if isinstance(rv, T): s.d[('v', 'ret', 0)] = self.deref(s, rv)
                    else: s.d[('v', 'ret', 0)] = ('ref', rv) if not isinstance(rv, (Iter, Obj)) else rv
                for k in [k for k in s.d if k[0] == 'v' and k[1] == fr.n]: del s.d[k]
                rets.append(s)
            else: raise Unsupported('%s outside loop' % o.kind)
        if not rets: raise Unsupported('no normal return')
        m = self.merge(rets)
        if len(m) != 1: raise Unsupported('return states cannot be merged')
        s = m[0]
        v = s.d.pop(('v', 'ret', 0), None)
        if isinstance(v, tuple) and v and v[0] == 'ref': v = v[1]
        return s, v

    def call_function(self, st, name, sg, this, vals, nargs=None):
        F = self.prog.find(name, sg, len(vals))
        con = self.contracts.lookup(name, len(vals)) if self.contracts else None
        if self.trace is not None and self.topF is not F and any(name.startswith(c) for c in self.trace[0]):
            # only which calls are made, in which order, under which conditions; what the calls do is left to their own contracts
            if name in self.trace[1]:
                record_call(self, st, name, name in self.trace[2])
            so = sort_of(F['ret'])
            return None if so == ('O', 'void') else mkraw('result', (name,), so)
        if con is not None and con.use and self.topF is not F:
            self.used.add(con.key)
            return self.apply_contract(st, con, this, vals, F)
        if F is None: return NotImplemented
        self.inlined.add(name)
        fr = self.new_frame(this, F)
        self.bind_params(st, fr, F, vals)
        return self.run_body(st, fr, F)

    def apply_contract(self, st, con, this, vals, F=None):
        from spec import K
        if self.steps and con.name in self.steps and self.topF is not F:
            import steps
            return steps.step(self, st, con, this, vals, F or self.prog.find(con.name, con.sig, len(vals)))
        k = K(self, st, this, vals, con, F)
        if self.monitor is not None:
            self.monitor.contract(self, st, con, F or k.F)
            self.monitor.off += 1
        try: con.spec(k)
        finally:
            if self.monitor is not None: self.monitor.off -= 1
        return k.result

    def call_lambda(self, st, lamv, vals):
        node = lamv.node
        F = {'params': node[2], 'body': node[3], 'ret': node[4], 'name': '<lambda>'}
        # the body refers to captured variables of lamv.frame by declaration id
        fr = self.new_frame(lamv.this, F)
        for c in node[1]:
            if c[0] == 'this': continue
            key = ('v', lamv.frame.n, c[0])
            if c[0] in lamv.inits:
                v = lamv.inits[c[0]]
                st.d[('v', fr.n, c[0])] = ('ref', v) if isinstance(v, (Loc, Ptr, Py)) else self.newbuf(st, v) if isinstance(v, T) and v.sort == 'M' and v.op != 'buf' else v
            elif key in st.d:
                v = st.d[key]
                if isinstance(v, tuple) and v[0] == 'ref': st.d[('v', fr.n, c[0])] = v
                elif isinstance(v, (Obj, Lam)): st.d[('v', fr.n, c[0])] = v
                else: st.d[('v', fr.n, c[0])] = ('ref', Loc(key, (), v.sort if isinstance(v, T) else None))
        self.bind_params(st, fr, F, vals)
        return self.run_body(st, fr, F)

    def e_call(self, st, fr, e):
        _, name, args, ty, targs, sg, ln, fid = e
        if not isinstance(name, str):
            f = self.val(st, self.ev(st, fr, name))
            if isinstance(f, Lam): return self.call_lambda(st, f, [self.ev(st, fr, a) for a in args])
            raise Unsupported('indirect call')
        vals = [self.ev(st, fr, a) for a in args]
        sgf = freeze(sg)
        r = self.call_function(st, name, sgf, None, vals)
        if r is not NotImplemented: return r
        return self.lib.call(self, st, name, vals, sort_of(ty), freeze(targs), sgf, freeze(ty))

    def e_mcall(self, st, fr, e):
        _, obj, name, args, ty, arrow, targs, sg, oty, ln, fid = e
        o = self.ev(st, fr, obj)
        vals = [self.ev(st, fr, a) for a in args]
        oty = freeze(oty)
        sgf = freeze(sg)
        if isinstance(o, Lam): return self.call_lambda(st, o, vals)
        if (isinstance(oty, str) and oty in self.prog.records) or name in self.prog.byname:
            ref = o.ref if isinstance(o, Obj) else self.val(st, o)
            r = self.call_function(st, name, sgf, ref, vals)
            if r is not NotImplemented: return r
        return self.lib.method(self, st, name, o, vals, sort_of(ty), freeze(targs), sgf, oty, freeze(ty))

    def e_opcall(self, st, fr, e):
        _, op, name, args, ty, method, sg, ln, fid = e
        if op == '()':
            o = self.ev(st, fr, args[0])
            o2 = self.val(st, o) if isinstance(o, Loc) else o
            if isinstance(o2, Lam):
                return self.call_lambda(st, o2, [self.ev(st, fr, a) for a in args[1:]])
            if name in self.prog.byname:
                ref = o.ref if isinstance(o, Obj) else self.val(st, o)
                r = self.call_function(st, name, freeze(sg), ref, [self.ev(st, fr, a) for a in args[1:]])
                if r is not NotImplemented: return r
            vals = [o] + [self.ev(st, fr, a) for a in args[1:]]
            return self.lib.op(self, st, op, name, vals, sort_of(ty), freeze(sg), freeze(ty))
        if op == '=' and name in ('std::vector::operator=', 'std::map::operator=') and False: pass
        if op in ('=', ) or op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            r = self.ev(st, fr, args[1]); l = self.ev(st, fr, args[0])
            vals = [l, r]
        else:
            vals = [self.ev(st, fr, a) for a in args]
        if name in self.prog.byname:
            if method:
                ref = vals[0].ref if isinstance(vals[0], Obj) else None
                if ref is not None:
                    r = self.call_function(st, name, freeze(sg), ref, vals[1:])
                    if r is not NotImplemented: return r
            else:
                r = self.call_function(st, name, freeze(sg), None, vals)
                if r is not NotImplemented: return r
        return self.lib.op(self, st, op, name, vals, sort_of(ty), freeze(sg), freeze(ty))

    def iter_deref(self, st, it):
        # an iterator that find() returned may be dereferenced only where the key was found
        if it.kind in ('map', 'set') and it.pos.op == 'mfind': it = Iter(it.loc, it.kind, it.pos.args[1])
        if it.kind == 'vec':
            if isinstance(it.loc, T): return vget(it.loc, it.pos)
            return Loc(it.loc.root, it.loc.path + (('v', it.pos),), it.loc.sort[1])
        if it.kind == 'arr':
            return Loc(it.loc.root, it.loc.path + (('a', it.pos),), it.loc.sort[2])
        if it.kind == 'map':
            if isinstance(it.loc, T):
                m = it.loc
                return mk(('st', 'pair', it.pos.sort, tm.vsort_of(m)), it.pos, mget(m, it.pos))
            so = it.loc.sort
            return Loc(it.loc.root, it.loc.path + (('e', it.pos),), ('st', 'pair', so[1], so[2]))
        if it.kind == 'set': return it.pos
        raise Unsupported('dereference of iterator ' + it.kind)

GHOST_FIELDS = {}
class Ghosts(dict):
    def __missing__(self, k):
        if k.startswith('calls'): return ('vec', 'Ref')
        raise KeyError(k)
GHOSTS = Ghosts()
def record_call(ex, st, name, apart=False):
    """calls of one kind are recorded in order; a call recorded apart remembers which ordered calls came before it"""
    key = ('g', 'calls of ' + name if apart else 'calls')
    before = (ex.getroot(st, ('g', 'calls')),) if apart else ()
    st.d[key] = vpush(ex.getroot(st, key), mkraw('called', (name,) + before, 'Ref'))

def ogetf(o, field, sort):
    """field of a library struct"""
    while o.op == 'osetf':
        if o.args[1] == field and o.args[2].sort == sort: return o.args[2]
        if o.args[1] == field: break
        o = o.args[0]
    return mkraw('ogetf', (o, field), sort)
tm.REBUILD['ogetf'] = lambda a, s: ogetf(a[0], a[1], s)
def show_size(t): return ''

def elem_sort(s):
    if isinstance(s, tuple) and s[0] == 'arr': return s[2]
    if isinstance(s, tuple) and s[0] == 'vec': return s[1]
    return 'R'

NONNULL_OPS = {'mget', 'vget', 'new', 'this', 'sub', 'sel', 'first', 'last', 'asel', 'addr'}
def nonnull(x):
    """A-LIVE: references read from the calibration's own tables are live"""
    if x is NULL: return FALSE
    if x.op in NONNULL_OPS: return TRUE
    if x.op == 'ite': return ite(x.args[0], nonnull(x.args[1]), nonnull(x.args[2]))
    if x.op == 'sym': return TRUE
    return ne(x, NULL)

def mrows(m):
    s = shape(m)
    if s: return I(s[0])
    if m.op == 'ite': return ite(m.args[0], mrows(m.args[1]), mrows(m.args[2]))
    if m.op == 'mpushrow': return add(mrows(m.args[0]), I(1))
    if m.op == 'mundef': return m.args[0]
    if m.op == 'mmul': return mrows(m.args[0])
    if m.op == 'mt': return mcols(m.args[0])
    if m.op in ('mset', 'mconv', 'clusters'): return mrows(m.args[0])    # k-means labels every row
    if m.op == 'acc':
        base, evs = m.args
        if all(e[2] == 'mset' for e in evs): return mrows(base)
        if all(e[2] == 'mpushrow' and e[1] is TRUE and len(e[0]) == 1 for e in evs):
            return add(mrows(base), *[dcount(e[0][0][1]) for e in evs])
        if all(e[2] == 'mpushrow' for e in evs):
            import loops
            return loops.finish(mrows(base), [(bs, g, 'add', (I(1),)) for bs, g, op, pl in open_events(m)])
    return mkraw('rows', (m,), 'I')
def mcols(m):
    s = shape(m)
    if s: return I(s[1])
    if m.op == 'mundef': return m.args[1]
    if m.op == 'mmul': return mcols(m.args[-1])
    if m.op == 'mt': return mrows(m.args[0])
    if m.op == 'mconv': return mcols(m.args[0])
    if m.op == 'mset' or m.op == 'acc' and all(e[2] in ('mset', 'mscale') for e in m.args[1]): return mcols(m.args[0])
    if m.op == 'ite': return ite(m.args[0], mcols(m.args[1]), mcols(m.args[2]))
    return mkraw('cols', (m,), 'I')
def uf_row(v, i):
    if v.op == 'mat' and i.op == 'int':
        r, c, d = v.args[0]
        if 0 <= i.args[0] < r: return mat((1, c, d), v.args[1 + i.args[0] * c:1 + (i.args[0] + 1) * c])
    return mkraw('row', (v, i), 'M')
def uf_col(v, i):
    if v.op == 'mat' and i.op == 'int':
        r, c, d = v.args[0]
        if 0 <= i.args[0] < c: return mat((r, 1, d), [v.args[1 + k * c + i.args[0]] for k in range(r)])
    return mkraw('col', (v, i), 'M')

def float_const(s, ty):
    import struct
    f = float(s)
    if ty == 'float':
        # shortest decimal that rounds to the same float
        for p in range(1, 12):
            t = '%.*g' % (p, f)
            if struct.unpack('f', struct.pack('f', float(t)))[0] == struct.unpack('f', struct.pack('f', f))[0]:
                return Fraction(t)
    return Fraction(repr(f))

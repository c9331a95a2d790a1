"""Contract language.

A contract is attached to a function of /repo by its qualified name.  Its body is
a relational specification over the pre-state: k.ret(...) fixes the value
returned, k.set*(...) fixes the final value of a location, k.each / k.when build
comprehensions and case distinctions.  EVERY location the contract does not
mention is framed: it must be unchanged.  At call sites only the contract is
used (the executor applies it to the caller's state), never the body."""
from terms import *
import terms as tm
from exec import *
import exec as exm
import loops, lib as lib_, libext

CONTRACTS = {}

class Contract:
    def __init__(self, name, fn, props, nargs=None, shapes=None, pre=None, kind='proved', arrays=None, note=None, key=None, sig=None, use=True, inputs=None, given=None, post=None, free=(), hook=None, rank=None, inv=None, bounds=False, private=(), after=None, trace=None, partial=(), steps=(), monitor=None, divide=None):
        self.name, self.fn, self.props, self.nargs = name, fn, props, nargs
        self.shapes, self.pre, self.kind = shapes or {}, pre, kind
        self.arrays = arrays or {}
        self.note, self.sig, self.use = note, sig, use
        self.key = key or name
        self.inputs, self.given, self.post, self.free, self.loop_hook = inputs or {}, given or [], post, free, hook
        self.rank = rank
        self.bounds = bounds   # every vector, array and matrix index is an obligation
        self.divide = divide   # every divisor has to have at least this magnitude
        self.trace = trace
        self.monitor = monitor # 'task' or 'main' (threads.py)
        self.steps = steps     # functions under contract whose effect is left opaque: what they read determines what they write
        self.partial = partial # reference arguments fixed by `after` only
        self.private = private # classes whose objects only the function itself and what it returns refer to
        self.after = after     # (ex, state after the body, K, returned value) -> [(name, value, required value)]
        self.inv = inv         # (name, condition): a class invariant, assumed of the pre-state and at call sites
        self.cls = name.rsplit('::', 1)[0] if '::' in name else None
    def applies(self, sg, nargs=None):
        if self.nargs is not None and nargs is not None and nargs != self.nargs: return False
        return True
    def spec(self, k):
        F = k.F
        k.names = [p[1] for p in F['params']] if F else []
        for p, s in self.shapes.items():
            v = k.arg(p)
            if isinstance(v, T):
                got = shape(v) if v.sort == 'M' else libext.elem_shape(v)
                if got == libext.NIL: continue
                if got is None or (got[0], got[1]) != (s[0], s[1]):
                    k.ex.checks.append(('shape of argument %s of %s' % (p, self.name), k.st.pc, FALSE if got else None))
        if self.pre:
            g = self.pre(k)
            if g is not None and g is not TRUE:
                k.ex.checks.append(('precondition of %s' % self.name, k.st.pc, g))
        if self.inv: k.ex.trusted.add('class invariant: ' + self.inv[0])
        n0 = len(k.ex.checks)
        self.fn(k)
        del k.ex.checks[n0:]       # what the callee itself must establish is proved for the callee
        for i in self.free:
            v = k.raw(i)
            if isinstance(v, Loc): k.ex.write(k.st, v, fresh('unspec', v.sort))

class ContractSet(dict):
    """name -> list of contracts"""
    def add(self, c): self.setdefault(c.name, []).append(c)
    def lookup(self, name, nargs):
        for c in sorted(self.get(name, ()), key=lambda c: not c.use):
            if c.nargs is None or c.nargs == nargs: return c
        return None

REG = ContractSet()

def contract(name, props, **kw):
    def deco(fn):
        names = [name] if isinstance(name, str) else name
        for n in names:
            REG.add(Contract(n, fn, props if isinstance(props, (list, tuple)) else [props], **kw))
        return fn
    return deco

NSP = 'McCalib::'
def fullcls(c): return c if '::' in c or c == 'Graph' else NSP + c

class K:
    """the state a contract talks about"""
    def __init__(self, ex, st, this, vals, con, F=None):
        self.ex, self.st, self.this, self.vals, self.con = ex, st, this, vals, con
        self.F = F if F is not None else ex.prog.find(con.name, con.sig, len(vals))
        self.result = None
        self.names = [p[1] for p in self.F['params']] if self.F else []
    def sub(self, st):
        k = K.__new__(K)
        k.__dict__.update(self.__dict__); k.st = st
        return k
    # ------------------------------------------------------------ arguments
    def index(self, name):
        """parameters are referred to by position (robust to renaming)"""
        if isinstance(name, int): return name
        raise KeyError(name)
    def arg(self, i):
        v = self.ex.val(self.st, self.vals[i])
        if isinstance(v, Obj): v = v.ref
        return v
    def raw(self, i): return self.vals[i]
    def setarg(self, i, x):
        """reference argument i ends up holding x"""
        loc = self.vals[i]
        if isinstance(loc, T) and loc.op == 'buf': self.st.d[('b', loc.args[0])] = x; return
        if not isinstance(loc, Loc): raise Unsupported('output argument of %s' % self.con.name)
        if loc.sort == 'M': self.ex.mat_inplace(self.st, loc, x)
        else: self.ex.write(self.st, loc, x)
    # --------------------------------------------------------------- fields
    def loc(self, f, ref=None, cls=None):
        cls = fullcls(cls) if cls else self.con.cls
        ref = self.this if ref is None else ref
        return Loc(('h', cls, f), (('h', ref),), self.ex.field_sort(cls, f))
    def f(self, f, ref=None, cls=None): return self.ex.read(self.st, self.loc(f, ref, cls))
    def setf(self, f, x, ref=None, cls=None): self.ex.write(self.st, self.loc(f, ref, cls), x)
    def col(self, cls, f): return self.ex.getroot(self.st, ('h', fullcls(cls), f))
    def ghost(self, g): return self.ex.getroot(self.st, ('g', g))
    def setghost(self, g, x): self.st.d[('g', g)] = x
    def sort(self, cls, f): return self.ex.field_sort(fullcls(cls), f)
    # updates of containers held in fields
    def put(self, f, key, x, ref=None, cls=None): self.setf(f, mput(self.f(f, ref, cls), key, x), ref, cls)
    def ins(self, f, key, x, ref=None, cls=None): self.setf(f, mins(self.f(f, ref, cls), key, x), ref, cls)
    def push(self, f, x, ref=None, cls=None): self.setf(f, vpush(self.f(f, ref, cls), x), ref, cls)
    def pushat(self, f, key, x, ref=None, cls=None):
        m = self.f(f, ref, cls)
        self.setf(f, mput(m, key, vpush(mget(m, key), x)), ref, cls)
    def ret(self, x): self.result = x
    def choose(self, name, sort):
        """some value the contract does not determine (the same for equal draws); when the body itself is verified,
        the witness its loop rule provides"""
        w = self.ex.witness
        if w is not None and self.con.name == self.ex.top:
            if w.get(name) is None: raise Unsupported('no witness for %s' % name)
            return w[name]
        return mkraw('chosen', (self.con.name, name, self.rnd('c:' + name)), sort)
    def anything(self, sort):
        """a value the contract leaves open"""
        return mkraw('any', (), sort) if self.con.name == self.ex.top else mkraw('chosen', (self.con.name, 'open', self.rnd('c:open')), sort)
    def rnd(self, kind='s'): return self.ex.rnd(kind)
    # -------------------------------------------------------------- control
    def when(self, c, then, els=None):
        """case distinction (also a path condition for what follows inside)"""
        st = self.st
        res = []
        c = self.ex.simp(st, c)
        for cond, fn in ((c, then), (not_(c), els)):
            if cond is FALSE: continue
            s = st.clone().assume(cond)
            if fn is not None:
                k = self.sub(s); k.result = None
                fn(k)
                s = k.st
                if k.result is not None:
                    s.d[('v', 'kret', 0)] = k.result
            res.append(s)
        m = self.ex.merge(res)
        if len(m) != 1: raise Unsupported('contract cases cannot be merged')
        r = m[0]
        v = r.d.pop(('v', 'kret', 0), None)
        if v is not None: self.result = v
        st.d, st.pc = r.d, r.pc
    def each(self, dom, fn, kind=None):
        """for every element b of the domain, in order: fn(k, b)"""
        b = bvar('k', dom_sort(dom))
        def iteration(S):
            k = self.sub(S)
            fn(k, b)
            return [Out('n', k.st)]
        # bool stop handled by guards
        outs = loops.foreach(self.ex, self.st, dom, b, iteration)
        self.st.d, self.st.pc = outs[0].st.d, outs[0].st.pc
    def over(self, m, fn):
        """every (key, value) of a map / every (index, element) of a vector"""
        if m.sort[0] == 'vec': return self.each(drange(I(0), vlen(m)), lambda k, b: fn(k, b, vget(m, b)))
        return self.each(dkeys(m), lambda k, b: fn(k, b, mget(m, b)))
    # local accumulators of a contract
    def var(self, name, init): self.st.d[('v', 'spec', name)] = self.ex.newbuf(self.st, init) if init.sort == 'M' else init
    def get(self, name):
        v = self.st.d[('v', 'spec', name)]
        return self.ex.deref(self.st, v) if isinstance(v, T) else v
    def ref(self, name):
        """the local itself, for a reference argument"""
        key = ('v', 'spec', name)
        return Loc(key, (), self.ex.deref(self.st, self.st.d[key]).sort)
    def let(self, name, x): self.st.d[('v', 'spec', name)] = x
    def call(self, name, this, *args):
        """the effect of another function under contract"""
        c = self.ex.contracts.lookup(name, len(args))
        vals = list(args)
        return self.ex.apply_contract(self.st, c, this, vals)
    def calls(self, name, apart=False): exm.record_call(self.ex, self.st, name, apart)
    def new(self, cls, *args):
        cls = fullcls(cls)
        ref = self.ex.alloc(self.st, cls)
        self.ex.construct(self.st, ref, cls, list(args))
        return ref

def dom_sort(d):
    if d.op == 'keys': return d.args[0].sort[1]
    if d.op in ('until', 'before'): return dom_sort(d.args[0])
    return 'I'

def collect(sort, dom, val, guard=TRUE, base=None):
    """[ val(b) | b in dom, guard(b) ]"""
    b = bvar('k', dom_sort(dom))
    g = guard(b) if callable(guard) else guard
    return loops.finish(base if base is not None else vnil(sort), [(((b, dom),), g, 'push', (val(b),))])
def total(dom, val, guard=TRUE, base=None):
    b = bvar('k', dom_sort(dom))
    x = val(b)
    g = guard(b) if callable(guard) else guard
    return loops.finish(base if base is not None else num(0, x.sort), [(((b, dom),), g, 'add', (x,))])
def exists(dom, pred):
    b = bvar('k', dom_sort(dom))
    return dexists(dom, lam(b, pred(b)))
def forall(dom, pred): return not_(exists(dom, lambda b: not_(pred(b))))
def pair(a, b): return mk(('st', 'pair', a.sort, b.sort), a, b)
def pt2(x, y): return mk(('st', 'Point2', 'R', 'R'), toreal(x), toreal(y))
def pt3(x, y, z): return mk(('st', 'Point3', 'R', 'R', 'R'), toreal(x), toreal(y), toreal(z))

"""Hash-consed, normalising term language.

Every C++ value the executor manipulates is a term.  Integers are mathematical,
float/double are reals (assumptions A-INT and A-REAL of DESIGN.md).

sorts:  'I' 'R' 'B' 'S'(string) 'Ref' 'M'(matrix content)
        ('vec',s) ('map',k,v) ('set',s) ('st',name,s...) ('arr',n,s) ('O',name)
        ('hp',s)   a heap column: one (class, field) for all objects
"""
from fractions import Fraction
import itertools

class T:
    __slots__ = ('op', 'args', 'sort', 'h', 'id', '_atoms', '__weakref__')
    def __repr__(self):
        return shown(self)
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

_tab = {}
_cnt = itertools.count()

def mkraw(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.h = hash(key)
        t.id = next(_cnt)
        t._atoms = None
        _tab[key] = t
    return t

LEFT = [0]             # how many operators may still be printed
def shown(x, n=100000):
    LEFT[0] = n
    return show(x)
def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 60 or LEFT[0] <= 0: return '...'
    LEFT[0] -= 1
    if t.op in ('sym', 'bv'): return str(t.args[0])
    if t.op in ('int', 'real', 'bool', 'str'): return str(t.args[0])
    if t.op == 'poly':
        parts = []
        for mono, c in t.args[0]:
            m = '*'.join(show(x, d + 1) for x in mono)
            parts.append(str(c) if not mono else (m if c == 1 else '%s*%s' % (c, m)))
        return '(' + ' + '.join(parts) + ')'
    return '%s(%s)' % (t.op, ', '.join(show_arg(a, d + 1) for a in t.args))

def show_arg(a, d):
    if isinstance(a, T): return show(a, d)
    if isinstance(a, tuple): return '<' + ', '.join(show_arg(x, d) for x in a) + '>'
    return str(a)

# ------------------------------------------------------------------ leaves
def sym(name, sort): return mkraw('sym', (name,), sort)
_fresh = itertools.count()
def fresh(prefix, sort): return mkraw('sym', ('%s!%d' % (prefix, next(_fresh)),), sort)
def bvar(prefix, sort): return mkraw('bv', ('%s$%d' % (prefix, next(_fresh)),), sort)
def I(n): return mkraw('int', (int(n),), 'I')
def Rl(x): return mkraw('real', (Fraction(x),), 'R')
TRUE = mkraw('bool', (True,), 'B')
FALSE = mkraw('bool', (False,), 'B')
def Bv(b): return TRUE if b else FALSE
def S(s): return mkraw('str', (s,), 'S')
NULL = mkraw('null', (), 'Ref')

def num(x, sort):
    return I(x) if sort == 'I' else Rl(x)

def isnum(t): return t.op in ('int', 'real')
def val(t): return t.args[0]

# -------------------------------------------------------------- arithmetic
# canonical polynomial: dict  tuple(sorted atoms) -> Fraction
def poly(t):
    if t.op in ('int', 'real'):
        return {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {(t,): Fraction(1)}

def mono_norm(m):
    """cancel x * rinv(x); sqrt(x)*sqrt(x) = x is NOT applied."""
    l = sorted(m, key=lambda x: x.id)
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(l):
            if x.op == 'rinv' and x.args[0] in l:
                l.remove(x); l.remove(x.args[0]); changed = True
                break
    return tuple(l)

def frompoly(p, sort):
    p = {m: c for m, c in p.items() if c != 0}
    if not p: return num(0, sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == (): return num(c, sort)
        if c == 1 and len(m) == 1 and m[0].sort == sort: return m[0]
    items = tuple(sorted(p.items(), key=lambda kv: (len(kv[0]), tuple(x.id for x in kv[0]))))
    return mkraw('poly', (items,), sort)

def psort(*ts): return 'R' if any(t.sort == 'R' for t in ts) else 'I'

def lift_ite(f, *ts):
    """distribute a strict operator over an ite argument when cheap"""
    return None

def add(*ts):
    s = psort(*ts)
    p = {}
    for t in ts:
        for m, c in poly(t).items():
            p[m] = p.get(m, 0) + c
    return frompoly(p, s)

def neg(t): return scale(t, -1)
def scale(t, k):
    return frompoly({m: c * k for m, c in poly(t).items()}, t.sort)
def sub(a, b):
    r = add(a, neg(b))
    return r
def mul(*ts):
    s = psort(*ts)
    acc = {(): Fraction(1)}
    for t in ts:
        q = poly(t)
        new = {}
        for m1, c1 in acc.items():
            for m2, c2 in q.items():
                m = mono_norm(m1 + m2)
                new[m] = new.get(m, 0) + c1 * c2
        acc = {m: c for m, c in new.items() if c != 0}
        if len(acc) > 4000: raise OverflowError('polynomial too large')
    return frompoly(acc, s)

def rinv(t):
    if isnum(t):
        if t.args[0] == 0: return mkraw('rinv', (Rl(0),), 'R')
        return Rl(Fraction(1) / Fraction(t.args[0]))
    t = toreal(t)
    if t.op == 'rinv': return t.args[0]
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1 or len(m) > 1:
            return mul(Rl(1 / c), *[(x.args[0] if x.op == 'rinv' else mkraw('rinv', (x,), 'R')) for x in m])
        return mkraw('rinv', (m[0],), 'R')
    # factor out the leading coefficient for a canonical form
    items = t.args[0]
    lead = items[0][1]
    if lead != 1:
        return mul(Rl(1 / lead), mkraw('rinv', (scale(t, 1 / lead),), 'R'))
    return mkraw('rinv', (t,), 'R')

def rdiv(a, b): return mul(toreal(a), rinv(toreal(b)))
def toreal(t):
    if t.sort == 'R': return t
    if t.op == 'int': return Rl(t.args[0])
    if t.op == 'poly': return frompoly(dict(t.args[0]), 'R')
    if t.op == 'ite': return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    return mkraw('poly', ((((t,), Fraction(1)),),), 'R')

def idiv(a, b):
    if a.op == 'int' and b.op == 'int' and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return I(q if (a.args[0] >= 0) == (b.args[0] > 0) else -q)
    if b.op == 'int' and b.args[0] == 1: return a
    return mkraw('idiv', (a, b), 'I')
def imod(a, b):
    if a.op == 'int' and b.op == 'int' and b.args[0] != 0:
        return sub(a, mul(idiv(a, b), b))
    if a.op == 'ite' and b.op == 'int': return ite(a.args[0], imod(a.args[1], b), imod(a.args[2], b))
    return mkraw('imod', (a, b), 'I')

def trunc(t):
    if t.sort == 'I': return t
    if t.op == 'real':
        f = t.args[0]
        return I(int(f))
    if t.op == 'poly' and len(t.args[0]) == 1:
        (m, c) = t.args[0][0]
        if c == 1 and len(m) == 1 and m[0].sort == 'I': return m[0]
    # integer-valued polynomials
    if t.op == 'poly' and all(c.denominator == 1 and all(x.sort == 'I' for x in m) for m, c in t.args[0]):
        return frompoly(dict(t.args[0]), 'I')
    return mkraw('trunc', (t,), 'I')

UF_CONST = {}
def uf(name, sort, *args):
    return mkraw(name, tuple(args), sort)

# ------------------------------------------------------------------ booleans
def not_(t):
    if t.op == 'bool': return Bv(not t.args[0])
    if t.op == 'not': return t.args[0]
    if t.op == 'le0':
        p = t.args[0]
        if p.sort == 'I': return le0(sub(I(1), p))
        return lt0(neg(p))
    if t.op == 'lt0': return le0(neg(t.args[0]))
    if t.op == 'and': return or_(*[not_(x) for x in t.args])
    if t.op == 'or': return and_(*[not_(x) for x in t.args])
    return mkraw('not', (t,), 'B')

def and_(*ts):
    out = []
    for t in ts:
        if t.op == 'and': l = t.args
        else: l = (t,)
        for x in l:
            if x is TRUE: continue
            if x is FALSE: return FALSE
            if x not in out: out.append(x)
    s = set(out)
    for x in out:
        if not_raw(x) in s: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    # unit resolution of disjunctions
    for i, x in enumerate(out):
        if x.op == 'or':
            rest = [y for y in x.args if not_raw(y) not in s]
            if any(y in s for y in x.args):
                return and_(*(out[:i] + out[i + 1:]))
            if len(rest) != len(x.args):
                return and_(*(out[:i] + [or_(*rest)] + out[i + 1:]))
    out.sort(key=lambda x: x.id)
    return mkraw('and', tuple(out), 'B')

def not_raw(x): return not_(x) if x.op not in ('and', 'or') else mkraw('not', (x,), 'B')

def or_(*ts):
    out = []
    for t in ts:
        l = t.args if t.op == 'or' else (t,)
        for x in l:
            if x is FALSE: continue
            if x is TRUE: return TRUE
            if x not in out: out.append(x)
    s = set(out)
    for x in out:
        if x.op not in ('and', 'or') and not_(x) in s: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    # absorption and factoring (a&b)|(a&!b) -> a
    for i, x in enumerate(out):
        for j, y in enumerate(out):
            if i == j: continue
            xs = set(x.args) if x.op == 'and' else {x}
            ys = set(y.args) if y.op == 'and' else {y}
            if xs <= ys:
                return or_(*(out[:j] + out[j + 1:]))
            dx, dy = xs - ys, ys - xs
            if len(dx) == 1 and len(dy) == 1 and not_(next(iter(dx))) is next(iter(dy)):
                rest = [z for k, z in enumerate(out) if k not in (i, j)]
                return or_(and_(*sorted(xs & ys, key=lambda q: q.id)), *rest)
            # a | (!a & b) -> a | b
            if len(xs) == 1 and x.op not in ('and', 'or'):
                nx = not_(x)
                if nx in ys and len(ys) > 1:
                    rest = [z for k, z in enumerate(out) if k != j]
                    return or_(and_(*sorted(ys - {nx}, key=lambda q: q.id)), *rest)
    out.sort(key=lambda x: x.id)
    return mkraw('or', tuple(out), 'B')

def implies(a, b): return or_(not_(a), b)

def over_ite(p, f):
    """f(k*ite(c, n1, n2) + n0)  =  ite(c, f(..), f(..)) for numeric branches"""
    if p.op == 'ite': x, k, k0 = p, 1, 0
    elif p.op == 'poly' and len(p.args[0]) <= 2:
        d = dict(p.args[0]); k0 = d.pop((), 0)
        if len(d) != 1: return None
        (m, k), = d.items()
        if len(m) != 1 or m[0].op != 'ite': return None
        x = m[0]
    else: return None
    if not (isnum(x.args[1]) and isnum(x.args[2])): return None
    g = lambda t: f(num(Fraction(t.args[0]) * k + k0, p.sort))
    return ite(x.args[0], g(x.args[1]), g(x.args[2]))

def counting(p):
    """p = c*(number of elements satisfying a condition) + d: (c, d, 'some element satisfies it')"""
    if p.sort != 'I' or p.op != 'poly' and p.op != 'acc': return None
    items = dict(poly(p)); d = items.pop((), 0)
    if len(items) != 1: return None
    (mono, c), = items.items()
    if len(mono) != 1 or mono[0].op != 'acc': return None
    base, evs = mono[0].args
    if not (isnum(base) and base.args[0] == 0): return None
    if any(op != 'add' or not isnum(pl[0]) or pl[0].args[0] != 1 or not bs for bs, g, op, pl in evs): return None
    r = []
    for e in evs:
        bs, g, op, pl = open_event(e)
        for b, dom in reversed(bs): g = dexists(dom, lam(b, g))
        r.append(g)
    return c, d, or_(*r)

def le0(p):
    r = over_ite(p, le0)
    if r is not None: return r
    if isnum(p): return Bv(p.args[0] <= 0)
    n = counting(p)
    if n is not None:
        c, d, some = n
        if c == -1 and d == 1: return some                  # count >= 1
        if c == 1 and d == 0: return not_(some)             # count <= 0
    if p.sort == 'I':
        # divide by gcd of non-constant coefficients
        items = poly(p)
        from math import gcd
        g = 0
        for m, c in items.items():
            if m != ():
                if c.denominator != 1: g = 1; break
                g = gcd(g, int(c))
        if g > 1:
            import math
            q = {m: c / g for m, c in items.items() if m != ()}
            c0 = items.get((), Fraction(0))
            q[()] = Fraction(math.ceil(c0 / g)) if c0 else Fraction(0)
            p = frompoly(q, 'I')
        # nonnegative atoms
        if nonpos(p): return TRUE
        if positive(p): return FALSE
        if nonpos(neg(p)): return eq(p, I(0))
        q = sub(I(1), p)
        if nonpos(neg(q)) and not isnum(q): return not_(eq(q, I(0)))
    else:
        p = posnorm(p)
        if nonpos(p): return TRUE
    return mkraw('le0', (p,), 'B')

def posnorm(p):
    """scale a real polynomial so that its leading |coefficient| is 1"""
    if p.op != 'poly': return p
    lead = abs(p.args[0][-1][1])
    if lead == 1: return p
    return scale(p, 1 / lead)

NONNEG = {'vlen', 'msize', 'ssize', 'rows', 'cols', 'mpos', 'count', 'strlen', 'charuco_markers'}
def nonneg_atom(x):
    if x.op == 'acc': return x.sort in ('I', 'R') and all(e[2] == 'add' and nonpos(neg(e[3][0])) for e in x.args[1]) and nonpos(neg(x.args[0]))
    return x.op in NONNEG or x.op in ('sqrt', 'abs', 'norm')
def nonpos(p):
    return all(c <= 0 and all(nonneg_atom(x) for x in m) for m, c in poly(p).items())
def positive(p):
    it = poly(p)
    return it.get((), 0) > 0 and all(c >= 0 and all(nonneg_atom(x) for x in m) for m, c in it.items())

def lt0(p):
    if isnum(p): return Bv(p.args[0] < 0)
    if p.sort == 'I': return le0(add(p, I(1)))
    r = over_ite(p, lt0)
    if r is not None: return r
    return mkraw('lt0', (posnorm(p),), 'B')

def le(a, b): return le0(sub(a, b))
def lt(a, b): return lt0(sub(a, b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

def eq(a, b):
    if a is b: return TRUE
    if a.sort in ('I', 'R') and b.sort in ('I', 'R'):
        p = sub(a, b)
        if isnum(p): return Bv(p.args[0] == 0)
        n = counting(p)
        if n is not None and n[1] == 0: return not_(n[2])
        r = over_ite(p, lambda q: eq(q, num(0, p.sort)))
        if r is not None: return r
        if p.op == 'poly':
            lead = p.args[0][-1][1]
            if p.sort == 'I':
                if lead < 0: p = neg(p)
            elif lead != 1: p = scale(p, 1 / lead)
        if p.sort == 'I' and positive(p): return FALSE
        if p.sort == 'I' and p.op == 'poly':
            # position of the first match compared with the end of the range: no match
            for mono, c in p.args[0]:
                if len(mono) == 1 and mono[0].op == 'ite' and abs(c) == 1:
                    C, x, y = mono[0].args
                    if C.op == 'exists' and x.op == 'first' and x.args == C.args and C.args[0].op == 'range' and C.args[0].args[1] is y \
                            and sub(scale(p, c), mono[0]) is neg(y): return not_(C)
        return mkraw('eq0', (p,), 'B')
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if not_(a) is b: return FALSE
    if a.op == 'str' and b.op == 'str': return FALSE
    if a.op.startswith('mk:') and b.op == a.op:
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'null' and b.op in ('new', 'this', 'sub'): return FALSE
    if b.op == 'null' and a.op in ('new', 'this', 'sub'): return FALSE
    if b.op == 'new' and a.op == 'new':
        # one allocation site yields one object per iteration of the loops around it
        if a.args[:2] != b.args[:2] or len(a.args[2]) != len(b.args[2]): return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[2], b.args[2])])
    if a.op == 'new' and preexisting(b, a) or b.op == 'new' and preexisting(a, b): return FALSE
    if a.op == 'ite' and a.sort == 'S': return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if a.id > b.id: a, b = b, a
    return mkraw('eq', (a, b), 'B')
def ne(a, b): return not_(eq(a, b))

LOOP_OF = {}    # loop-carried value -> binder of the loop whose iterations it enters
def has_new(x):
    r = _hasnew.get(x)
    if r is None:
        r = x.op == 'new' or any(has_new(y) for y in subterms(x.args)) if x.op not in ('acc', 'lam') else any(has_new(y) for y in subterms(x.args))
        _hasnew[x] = r
    return r
_hasnew = {}
def preexisting(x, n):
    """the reference x was read from a state older than the allocation n: no allocation occurs
    in x, and the loop-carried values in it entered an iteration in which n is allocated"""
    if x.op == 'new' or has_new(x): return False
    return all(LOOP_OF[a] in n.args[2] for a in atoms(x) if a in LOOP_OF)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort and {a.sort, b.sort} == {'I', 'R'}:
        a, b = toreal(a), toreal(b)
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not': return ite(c.args[0], b, a)
    # one canonical polarity for comparisons
    if c.op in ('le0', 'lt0', 'or'):
        n = not_(c)
        if n.op in ('le0', 'lt0', 'and') and n.id < c.id:
            c, a, b = n, b, a
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a.op == 'ite' and a.args[2] is b: return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op.startswith('mk:') and a.op == b.op and len(a.args) == len(b.args):
        return mkraw(a.op, tuple(ite(c, x, y) for x, y in zip(a.args, b.args)), a.sort)
    if a.op == 'mat' and b.op == 'mat' and a.args[0] == b.args[0]:
        return mat(a.args[0], [ite(c, x, y) for x, y in zip(a.args[1:], b.args[1:])])
    return mkraw('ite', (c, a, b), a.sort)

# ------------------------------------------------------------------- structs
def mk(sort, *fields):
    """struct literal, sort = ('st', name, s1, ...) or ('arr', n, s)"""
    if sort[0] == 'arr': name = 'arr'
    else: name = sort[1]
    # eta: mk(sel(x,0),...,sel(x,n-1)) = x
    if fields and fields[0].op == 'sel' and fields[0].args[1] == 0:
        x = fields[0].args[0]
        if x.sort == sort and all(f.op == 'sel' and f.args[0] is x and f.args[1] == i for i, f in enumerate(fields)) :
            return x
    return mkraw('mk:' + name, tuple(fields), sort)

def fsort(sort, i):
    return sort[2] if sort[0] == 'arr' else sort[2 + i]
def nfields(sort):
    return sort[1] if sort[0] == 'arr' else len(sort) - 2

def sel(t, i):
    if t.op.startswith('mk:'): return t.args[i]
    if t.op == 'ite': return ite(t.args[0], sel(t.args[1], i), sel(t.args[2], i))
    return mkraw('sel', (t, i), fsort(t.sort, i))

def expand(t):
    """eta-expand a struct/array value into mk:..."""
    if t.op.startswith('mk:'): return t
    return mkraw('mk:' + ('arr' if t.sort[0] == 'arr' else t.sort[1]),
                 tuple(sel(t, i) for i in range(nfields(t.sort))), t.sort)

def upd(t, i, v):
    f = list(expand(t).args)
    f[i] = v
    return mk(t.sort, *f)

def asel(t, i):
    """array select with a term index"""
    if i.op == 'int' and 0 <= i.args[0] < t.sort[1]: return sel(t, i.args[0])
    if t.op == 'aset':
        arr, k, v = t.args
        e = eq(k, i)
        if e is TRUE: return v
        if e is FALSE: return asel(arr, i)
        return ite(e, v, asel(arr, i))
    if t.op == 'ite': return ite(t.args[0], asel(t.args[1], i), asel(t.args[2], i))
    return mkraw('asel', (t, i), t.sort[2])
def aset(t, i, v):
    if i.op == 'int' and 0 <= i.args[0] < t.sort[1]: return upd(t, i.args[0], v)
    return mkraw('aset', (t, i, v), t.sort)

# ---------------------------------------------------------------- containers
def vnil(s): return mkraw('vnil', (), ('vec', s))
def vpush(v, x): return mkraw('vpush', (v, x), v.sort)
def vlit(s, xs):
    v = vnil(s)
    for x in xs: v = vpush(v, x)
    return v

def vlen(v):
    if v.op == 'vresize': return v.args[1]
    if v.op == 'vnil': return I(0)
    if v.op == 'vpush': return add(vlen(v.args[0]), I(1))
    if v.op == 'vset': return vlen(v.args[0])
    if v.op == 'vrep': return v.args[0]
    if v.op == 'ite': return ite(v.args[0], vlen(v.args[1]), vlen(v.args[2]))
    if v.op == 'acc':
        n = acc_len(v)
        if n is not None: return n
        if v.args[0].op == 'vnil' and all(e[2] == 'push' for e in v.args[1]):      # how many, whatever they are
            return add(*[acc(I(0), [(bs, g, 'add', (I(1),))]) for bs, g, op, pl in v.args[1]])
    if v.op == 'vcat': return add(*[vlen(x) for x in v.args])
    if v.op in LEN_PRESERVING: return vlen(v.args[0])
    if v.op in ('spt', 'sptdist', 'components'): return vlen(sel(v.args[0], 0))
    return mkraw('vlen', (v,), 'I')
LEN_PRESERVING = {'vsort', 'vreverse', 'vshuffle'}

def vget(v, i):
    es = v.sort[1]
    if v.op == 'vpush':
        n = vlen(v.args[0])
        e = eq(i, n)
        if e is TRUE: return v.args[1]
        if e is FALSE: return vget(v.args[0], i)
        d = sub(n, i)
        if isnum(d) and d.args[0] > 0: return vget(v.args[0], i)
        # keep symbolic
    if v.op == 'vset':
        e = eq(v.args[1], i)
        if e is TRUE: return v.args[2]
        if e is FALSE: return vget(v.args[0], i)
        return ite(e, v.args[2], vget(v.args[0], i))
    if v.op == 'vrep': return v.args[1]
    if v.op == 'ite': return ite(v.args[0], vget(v.args[1], i), vget(v.args[2], i))
    if v.op == 'acc':
        r = acc_get(v, i)
        if r is not None: return r
    return mkraw('vget', (v, i), es)

def vset(v, i, x):
    if v.op == 'vset' and v.args[1] is i: return vset(v.args[0], i, x)
    if x.op == 'vget' and x.args[0] is v and x.args[1] is i: return v
    if v.op == 'vpush' and i.op == 'int':
        n = vlen(v.args[0])
        if n is i: return vpush(v.args[0], x)
        if n.op == 'int' and i.args[0] < n.args[0]:
            return vpush(vset(v.args[0], i, x), v.args[1])
    if v.op == 'vrep' and v.args[0].op == 'int' and v.args[0].args[0] <= 16 and i.op == 'int':
        return vset(vlit(v.sort[1], [v.args[1]] * v.args[0].args[0]), i, x)
    return mkraw('vset', (v, i, x), v.sort)

def vrep(n, x):
    if n.op == 'int' and n.args[0] == 0: return vnil(x.sort)
    return mkraw('vrep', (n, x), ('vec', x.sort))

def mnil(k, v): return mkraw('mnil', (), ('map', k, v))
def mput(m, k, v):
    if v.op in ('mget', 'hget') and v.args[0] is m and v.args[1] is k:
        if m.sort[0] == 'hp': return m
    if m.op == 'mput' and m.args[1] is k: return mput(m.args[0], k, v)
    if m.sort[0] == 'map' and v.op == 'mget' and v.args[1] is k:
        # writing back the value already there
        b, g = m, TRUE
        while b.op == 'mput': g = and_(g, ne(k, b.args[1])); b = b.args[0]
        if b is v.args[0]:
            return ite(and_(g, mhas(b, k)), m, mkraw('mput', (m, k, v), m.sort))
    if m.sort[0] == 'hp' and m.op == 'mput' and ne(k, m.args[1]) is TRUE and k.id < m.args[1].id:
        return mput(mput(m.args[0], k, v), m.args[1], m.args[2])
    return mkraw('mput', (m, k, v), m.sort)
def mins(m, k, v):
    h = mhas(m, k)
    if h is TRUE: return m
    if h is FALSE: return mput(m, k, v)
    return mkraw('mins', (m, k, v), m.sort)
def vsort_of(m): return m.sort[2] if m.sort[0] == 'map' else m.sort[1]
DISTINCT = []   # hooks: (k1,k2) -> True when known different
def keq(a, b):
    e = eq(a, b)
    if e.op == 'bool': return e
    for h in DISTINCT:
        r = h(a, b)
        if r is not None: return Bv(not r)
    return e
def mget(m, k):
    """value at k; a missing key reads as the default of the value type"""
    if m.op == 'mnil': return default(vsort_of(m))
    if m.op == 'mput':
        e = keq(m.args[1], k)
        if e is TRUE: return m.args[2]
        if e is FALSE: return mget(m.args[0], k)
        return ite(e, m.args[2], mget(m.args[0], k))
    if m.op == 'mins':
        e = keq(m.args[1], k)
        if e is FALSE: return mget(m.args[0], k)
        r = mget(m.args[0], k)
        return ite(and_(e, not_(mhas(m.args[0], k))), m.args[2], r)
    if m.op == 'merase':
        e = keq(m.args[1], k)
        if e is TRUE: return default(vsort_of(m))
        if e is FALSE: return mget(m.args[0], k)
    if m.op == 'ite': return ite(m.args[0], mget(m.args[1], k), mget(m.args[2], k))
    if m.op == 'acc':
        if (m, k) in SELECTED: return SELECTED[(m, k)]
        r = acc_mget(m, k)
        if r is not None: return r
    return mkraw('mget', (m, k), vsort_of(m))
SELECTED = {}    # (map of selected entries, its loop variable) -> entry, inside the loop over that map
def mhas(m, k):
    if m.op == 'mnil': return FALSE
    if m.op == 'mput': return or_(keq(m.args[1], k), mhas(m.args[0], k))
    if m.op == 'mins': return or_(keq(m.args[1], k), mhas(m.args[0], k))
    if m.op == 'merase': return and_(not_(keq(m.args[1], k)), mhas(m.args[0], k))
    if m.op == 'ite': return ite(m.args[0], mhas(m.args[1], k), mhas(m.args[2], k))
    if m.op == 'acc' and m.args[0].op == 'mnil' and len(m.args[1]) == 1:
        bs, g, op, pl = m.args[1][0]
        if op in ('put', 'ins') and len(bs) == 1 and pl[0] is bs[0][0]: return and_(dmember(bs[0][1], k), subst(g, {bs[0][0]: k}))
    return mkraw('mhas', (m, k), 'B')
def msize(m):
    if m.op == 'mnil': return I(0)
    if m.op == 'mput':
        h = mhas(m.args[0], m.args[1])
        if h is TRUE: return msize(m.args[0])
        if h is FALSE: return add(msize(m.args[0]), I(1))
        return add(msize(m.args[0]), ite(h, I(0), I(1)))
    if m.op == 'ite': return ite(m.args[0], msize(m.args[1]), msize(m.args[2]))
    return mkraw('msize', (m,), 'I')

def default(s):
    if s == 'I': return I(0)
    if s == 'R': return Rl(0)
    if s == 'B': return FALSE
    if s == 'S': return mkraw('str', ('',), 'S')
    if s == 'Ref': return NULL
    if s == 'M': return mkraw('mat', ((0, 0, None),), 'M')
    if s[0] == 'vec': return vnil(s[1])
    if s[0] == 'map': return mnil(s[1], s[2])
    if s[0] == 'set': return mkraw('snil', (), s)
    if s[0] == 'arr': return mk(s, *[default(s[2])] * s[1]) if s[1] <= 64 else mkraw('azero', (), s)
    if s[0] == 'st': return mk(s, *[default(x) for x in s[2:]])
    return mkraw('dflt', (), s)

# ------------------------------------------------------------------- matrices
# mat((rows, cols, depth), e00, e01, ...)  literal; depth in {'d','f','u',None}
def mat(shape, entries):
    r, c, d = shape
    entries = tuple(entries)
    assert len(entries) == r * c, (shape, len(entries))
    if entries and r * c > 0:
        e = entries[0]
        if e.op == 'at' and e.args[1] is I(0) and e.args[2] is I(0):
            M = e.args[0]
            if SHAPES.get(M) == shape and all(
                    x.op == 'at' and x.args[0] is M and x.args[1] is I(k // c) and x.args[2] is I(k % c)
                    for k, x in enumerate(entries)):
                return M
        if r == 4 and c == 4 and MAT44 is not None and all(isnum(x) and x.args[0] == (k == 3) for k, x in enumerate(entries[12:])):
            return MAT44(shape, entries)
    return mkraw('mat', (shape,) + entries, 'M')
MAT44 = None
SHAPES = {}     # opaque matrix term -> (rows, cols, depth)
SHAPE_RULES = {}  # op -> fn(term) -> shape or None

def shape(M):
    if M.op == 'mat': return M.args[0]
    if M in SHAPES: return SHAPES[M]
    r = SHAPE_RULES.get(M.op)
    if r:
        s = r(M)
        if s:
            SHAPES[M] = s
            return s
    return None

def at(M, i, j):
    if M.op in ('mat', 'ite', 'mset'):
        if i.op == 'ite': return ite(i.args[0], at(M, i.args[1], j), at(M, i.args[2], j))
        if j.op == 'ite': return ite(j.args[0], at(M, i, j.args[1]), at(M, i, j.args[2]))
    if M.op == 'mat':
        r, c, d = M.args[0]
        if i.op == 'int' and j.op == 'int':
            if 0 <= i.args[0] < r and 0 <= j.args[0] < c:
                return M.args[1 + i.args[0] * c + j.args[0]]
            return mkraw('oob', (M, i, j), 'R')
        if i.op == 'int' and r == 1 and False: pass
    if M.op == 'ite': return ite(M.args[0], at(M.args[1], i, j), at(M.args[2], i, j))
    if M.op == 'mset':
        B, k, l, v = M.args
        e = and_(eq(k, i), eq(l, j))
        if e is TRUE: return v
        if e is FALSE: return at(B, i, j)
        return ite(e, v, at(B, i, j))
    if M.op == 'mt': return at(M.args[0], j, i)
    if M.op == 'mundef' or M.op == 'acc' and M.args[0].op == 'mundef': i, j = one_row(M if M.op == 'mundef' else M.args[0], i, j)
    return mkraw('at', (M, i, j), 'R')

def entries(M):
    """literal with entries at(M,i,j) for a matrix of known shape"""
    if M.op == 'mat': return M
    s = shape(M)
    if s is None: return None
    r, c, d = s
    return mkraw('mat', (s,) + tuple(at(M, I(i), I(j)) for i in range(r) for j in range(c)), 'M')

def one_row(U, i, j):
    """elements of a matrix of variable size, created continuous, are numbered row by row"""
    n = U.args[1]
    if n is I(1): return add(i, j), I(0)
    if n.op == 'int': return i, j
    return I(0), add(mul(i, n), j)

def mset(M, i, j, v):
    s = shape(M)
    if s and s[0] * s[1] <= 64:
        if i.op == 'ite': return ite(i.args[0], mset(M, i.args[1], j, v), mset(M, i.args[2], j, v))
        if j.op == 'ite': return ite(j.args[0], mset(M, i, j.args[1], v), mset(M, i, j.args[2], v))
    if s and s[0] * s[1] <= 64 and i.op == 'int' and j.op == 'int':
        r, c, d = s
        L = list(entries(M).args[1:])
        if 0 <= i.args[0] < r and 0 <= j.args[0] < c:
            L[i.args[0] * c + j.args[0]] = v
            return mat(s, L)
    return mkraw('mset', (M, i, j, v), 'M')

def is_eye(M):
    if M.op == 'meye': return True
    if M.op == 'mat':
        r, c, d = M.args[0]
        return r == c and r > 0 and all(isnum(x) and x.args[0] == (1 if k // c == k % c else 0) for k, x in enumerate(M.args[1:]))
    return False

def mmul(*Ms):
    """associative matrix product; exact cancellation of X*inv(X)"""
    l = []
    for M in Ms:
        l.extend(M.args if M.op == 'mmul' else (M,))
    if any(M.op == 'mscale' for M in l):
        k = mul(*[M.args[1] for M in l if M.op == 'mscale'])
        return mscale(mmul(*[M.args[0] if M.op == 'mscale' else M for M in l]), k)
    if any(M.op == 'ite' for M in l) and len(l) <= 3:
        i = next(i for i, M in enumerate(l) if M.op == 'ite')
        c, x, y = l[i].args
        return ite(c, mmul(*(l[:i] + [x] + l[i+1:])), mmul(*(l[:i] + [y] + l[i+1:])))
    l = [M for M in l if not is_eye(M)] or [l[0]]
    i = 0
    while i + 1 < len(l):
        a, b = l[i], l[i + 1]
        if minv(a) is b:
            l[i:i + 2] = []
            i = max(i - 1, 0)
            if not l:
                s = shape(a)
                return eye(s[0] if s else 4, s[2] if s else 'd')
        else: i += 1
    if len(l) == 1: return l[0]
    if all(M.op == 'mat' for M in l) and all(M.args[0][0] * M.args[0][1] <= 64 for M in l):
        X = l[0]
        for Y in l[1:]:
            r, n, d = X.args[0]; n2, c, d2 = Y.args[0]
            if n != n2: return mkraw('mmul', tuple(l), 'M')
            X = mat((r, c, d or d2), [add(*[mul(X.args[1 + i * n + k], Y.args[1 + k * c + j]) for k in range(n)])
                                    for i in range(r) for j in range(c)])
        return X
    return mkraw('mmul', tuple(l), 'M')
def eye(n, d='d'): return mat((n, n, d), [num(1 if i == j else 0, 'R') for i in range(n) for j in range(n)])
def minv(M):
    if M.op == 'minv': return M.args[0]
    if is_eye(M): return M
    if M.op == 'mmul': return mmul(*[minv(x) for x in reversed(M.args)])
    if M.op == 'ite': return ite(M.args[0], minv(M.args[1]), minv(M.args[2]))
    return mkraw('minv', (M,), 'M')
def mt(M):
    if M.op == 'mt': return M.args[0]
    if M.op == 'mscale': return mscale(mt(M.args[0]), M.args[1])
    if M.op == 'ite': return ite(M.args[0], mt(M.args[1]), mt(M.args[2]))
    if M.op == 'mat':
        r, c, d = M.args[0]
        return mat((c, r, d), [M.args[1 + i * c + j] for j in range(c) for i in range(r)])
    return mkraw('mt', (M,), 'M')
def madd(A, B):
    if A.op == 'mat' and B.op == 'mat' and A.args[0][:2] == B.args[0][:2]:
        return mat(A.args[0], [add(x, y) for x, y in zip(A.args[1:], B.args[1:])])
    return mkraw('madd', (A, B), 'M')
def mscale(A, k):
    if isnum(k) and k.args[0] == 1: return A
    if A.op == 'mat': return mat(A.args[0], [mul(x, k) for x in A.args[1:]])
    if A.op == 'mscale': return mscale(A.args[0], mul(A.args[1], k))
    if A.op == 'ite': return ite(A.args[0], mscale(A.args[1], k), mscale(A.args[2], k))
    return mkraw('mscale', (A, k), 'M')

# --------------------------------------------------------------- comprehensions
# dom(kind, ...):
#   range(lo, hi)  elements lo..hi-1 in order
#   keys(m)        keys of a std::map in increasing order / of a set
#   until(dom, bv, cond)   the elements before the first one satisfying cond
# acc(base, events) : base after the events, in order
#   event = (binders, guard, op, payload)    binders = ((bv, dom), ...)
#   ops: push x | put k v | ins k v | app k x (m[k].push_back) | add x | madd k x
#        set x | mulR X | mulL X | ...
def drange(lo, hi): return mkraw('range', (lo, hi), 'D')
def dkeys(m): return mkraw('keys', (m,), 'D')
def duntil(d, f):
    """the elements of d before the first one satisfying the predicate f"""
    if f.args[1] is FALSE: return d
    return mkraw('until', (d, f), 'D')
def dexists(d, f):
    if f.args[1] is FALSE: return FALSE
    if f.args[1] is TRUE: return lt(I(0), dcount(d))
    return mkraw('exists', (d, f), 'B')
def dfirst(d, f):
    """the first element of d satisfying f (meaningful when one exists)"""
    return mkraw('first', (d, f), f.args[0].sort)

def dlast(d, f):
    """the last element of d satisfying f (meaningful when one exists)"""
    if d.op == 'range' and f.args[1] is TRUE: return sub(d.args[1], I(1))
    return mkraw('last', (d, f), f.args[0].sort)

def dcount(d):
    if d.op == 'range':
        n = sub(d.args[1], d.args[0])
        if isnum(n): return I(max(0, n.args[0]))
        if nonpos(neg(n)): return n
        return ite(le(n, I(0)), I(0), n)
    if d.op == 'keys': return msize(d.args[0])
    return mkraw('count', (d,), 'I')

def dmember(d, b):
    """facts about an element b of d"""
    if d.op == 'range': return and_(le(d.args[0], b), lt(b, d.args[1]))
    if d.op == 'keys':
        if d.args[0].sort[0] == 'set': return uf('shas', 'B', d.args[0], b)
        return mhas(d.args[0], b)
    if d.op == 'until': return and_(dmember(d.args[0], b), not_(beta(d.args[1], b)))
    return TRUE

ONCE = drange(I(0), I(1))
def commute(e, f):
    """e for every element of a domain and then f for every element = e and f element by element"""
    b, (op, pl), (oq, ql) = e[0][0][0], e[2:], f[2:]
    ql = subst(ql, {f[0][0][0]: b})
    plain = e[1] is TRUE and f[1] is TRUE
    while True:
        if op == oq and op in ('add', 'madd', 'sins'): return True
        if op == oq == 'set': return pl[0] is ql[0] and pl[0].op == 'bool'
        x, y = op.startswith('at:') or op in ('put', 'ins'), oq.startswith('at:') or oq in ('put', 'ins')
        if op == oq == 'mset':
            if any(p.op == q.op == 'int' and p is not q or p is q is b for p, q in zip(pl[:2], ql[:2])): return True
            return plain and pl[0] is ql[0] and pl[1] is ql[1]
        if not (x and y): return False
        if pl[0] is ql[0]:
            if pl[0] is b: return True
            if op == oq == 'put': return plain
        elif pl[0].op == ql[0].op == 'int': return True
        else: return False
        if not (op.startswith('at:') and oq.startswith('at:')): return False
        op, pl, oq, ql = op[3:], pl[1:], oq[3:], ql[1:]

def apart(before_, evs):
    """Adjacent events with the same outermost domain are performed element by element. Events that follow a completed
    sequence of events over the same domain are set apart from it by an enclosing domain with a single element."""
    if not before_ or not evs or not evs[0][0] or not before_[-1][0]: return evs
    def leads(l, d):
        r = []
        for e in l:
            if not e[0] or e[0][0][1] is not d: break
            r.append(e)
        return r
    d = before_[-1][0][0][1]
    new = leads(evs, d)
    old = leads(reversed(before_), d)
    if not new or all(commute(e, f) for e in old for f in new): return evs
    u = bvar('k', 'I')
    return [canon_event((((u, ONCE),) + bs, g, op, pl)) for bs, g, op, pl in new] + evs[len(new):]

def regroup(old, new):
    """events after a substitution: sequences over different domains stay apart when the domains become the same"""
    lead = lambda e: e[0][0][1] if e[0] else None
    cut = [i for i in range(1, len(old)) if lead(old[i]) is not lead(old[i - 1]) and lead(new[i]) is lead(new[i - 1]) is not None]
    if not cut: return new
    new = [canon_event(e) for e in new]
    r = new[:cut[0]]
    for i, j in zip(cut, cut[1:] + [len(new)]): r = r + apart(r, new[i:j])
    return r

def acc(base, events):
    """events: tuple of (binders, guard, op, payload)"""
    evs = []
    for e in events:
        if e[1] is FALSE or any(d.op == 'range' and le(d.args[1], d.args[0]) is TRUE for b, d in e[0]): continue
        evs.append(canon_event(e))
    if base.op == 'acc':
        evs = list(base.args[1]) + apart(base.args[1], evs)
        base = base.args[0]
    if not evs: return base
    if base.op == 'mundef':
        evs = [canon_event((bs, g, op, one_row(base, *pl[:2]) + pl[2:])) if op == 'mset' and len(pl) == 3 else (bs, g, op, pl) for bs, g, op, pl in evs]
    if base.op == 'mnil' and len(evs) == 1:
        # insertion under pairwise different keys into an empty map never meets an existing entry
        bs, g, op, pl = evs[0]
        if op == 'ins' and len(bs) == 1 and pl[0] is bs[0][0]: evs = [(bs, g, 'put', pl)]
        if op in ('put', 'ins') and g is TRUE and len(bs) == 1 and bs[0][1].op == 'keys' and pl[0] is bs[0][0]:
            m = bs[0][1].args[0]
            if m.sort == base.sort and pl[1] is mget(m, pl[0]): return m       # a copy of the map
    if base.op == 'vnil' and len(evs) == 1:
        bs, g, op, pl = evs[0]
        if op == 'push' and g is TRUE and len(bs) == 1 and bs[0][1].op == 'range' and bs[0][1].args[0] is I(0) and pl[0].op == 'vget' and pl[0].args[1] is bs[0][0]:
            v = pl[0].args[0]
            if v.sort == base.sort and bs[0][0] not in atoms(v) and bs[0][1].args[1] is vlen(v): return v       # a copy of the list
    if base.op == 'vrep' and len(evs) == 1:
        # a vector of n elements, every one of them assigned in order
        bs, g, op, pl = evs[0]
        if op == 'put' and g is TRUE and len(bs) == 1 and bs[0][1].op == 'range' and pl[0] is bs[0][0] \
           and bs[0][1].args[0] is I(0) and bs[0][1].args[1] is base.args[0]:
            return acc(vnil(base.sort[1]), [(bs, g, 'push', (pl[1],))])
    return mkraw('acc', (base, tuple(evs)), base.sort)

def height(x):
    if isinstance(x, tuple): return max([height(y) for y in x], default=0)
    if not isinstance(x, T): return 0
    h = _hgt.get(x)
    if h is None:
        if x.op == 'acc':
            h = height(x.args[0])
            for (bs, g, op, pl) in x.args[1]:
                h = max([h] + [b.args[0] for b, d in bs])
        elif x.op == 'lam': h = x.args[0].args[0]
        else: h = max([height(a) for a in x.args], default=0)
        _hgt[x] = h
    return h
_hgt = {}

def cbv(n, sort): return mkraw('bv', (n, sort), sort)

def canon_event(e):
    """alpha-normalise the (fresh) binders of one event"""
    bs, g, op, pl = e
    n = height((g, pl, tuple(d for b, d in bs)))
    m = {}
    nbs = []
    for j, (b, d) in enumerate(bs):
        d2 = subst(d, m)
        m = dict(m)
        m[b] = cbv(n + 1 + j, b.sort)
        nbs.append((m[b], d2))
    return (tuple(nbs), subst(g, m), op, subst(pl, m))

def open_event(e):
    """rename the binders of an event to fresh ones"""
    bs, g, op, pl = e
    m = {}
    nbs = []
    for b, d in bs:
        d2 = subst(d, m)
        m = dict(m)
        m[b] = bvar('k', b.sort)
        nbs.append((m[b], d2))
    return (tuple(nbs), subst(g, m), op, subst(pl, m))

def open_events(t): return [open_event(e) for e in t.args[1]]

def canon_acc(t):
    base, evs = t.args
    return mkraw('acc', (base, tuple(canon_event(e) for e in evs)), t.sort)

def lam(b, body):
    """one-binder abstraction; b must be a fresh bvar"""
    c = cbv(height(body) + 1, b.sort)
    return mkraw('lam', (c, subst(body, {b: c})), ('lam', b.sort, body.sort))
def beta(f, x):
    return subst(f.args[1], {f.args[0]: x})

def acc_len(v):
    """length of a vector comprehension of pushes"""
    base, evs = v.args
    n = vlen(base)
    for (bs, g, op, pl) in evs:
        if op == 'put' or op.startswith('at:'): continue
        if op != 'push': return None
        if g is TRUE and len(bs) == 1:
            n = add(n, dcount(bs[0][1]))
        elif g is TRUE and len(bs) == 2 and bs[0][0] not in atoms(bs[1][1]):
            n = add(n, mul(dcount(bs[0][1]), dcount(bs[1][1])))
        else:
            return None
    return n

def acc_get(v, i):
    base, evs = v.args
    bs, g, op, pl = evs[-1]
    rest = acc(base, evs[:-1]) if len(evs) > 1 else base
    if op == 'put' and len(bs) == 1 and bs[0][1].op == 'range' and pl[0] is bs[0][0]:
        b, d = bs[0]
        inside = and_(le(d.args[0], i), lt(i, d.args[1]), subst(g, {b: i}))
        return ite(inside, subst(pl[1], {b: i}), vget(rest, i))
    if len(evs) == 1 and op == 'push' and g is TRUE and len(bs) == 1 and bs[0][1].op == 'range' and base.op == 'vnil':
        b, d = bs[0]
        return subst(pl[0], {b: add(i, d.args[0])})
    return None

def acc_mget(m, k):
    base, evs = m.args
    if all(op.startswith('at:') and pl[0] is k for bs, g, op, pl in evs) and not any(b in atoms(k) for e in evs for b, d in e[0]):
        # every update goes to the element that is read
        import loops
        return loops.finish(mget(base, k), [(bs, g, op[3:], pl[1:]) for bs, g, op, pl in map(open_event, evs)])
    # read of a column at a key that no event can touch
    cur = None
    for n in range(len(evs) - 1, -1, -1):
        bs, g, op, pl = evs[n]
        if pl and isinstance(pl[0], T) and pl[0].op == 'new' and (op == 'put' or op.startswith('at:')) and k.sort == 'Ref' and preexisting(k, pl[0]): continue
        if (op == 'put' or op.startswith('at:')) and any(pl[0] is b and dmember(d, k) is FALSE for b, d in bs): continue
        if op not in ('put',): return None
        # definite hit: payload key is an injective image of the binder and k matches it
        r = match_key(bs, pl[0], k)
        if r is None: return None
        hit, sub_ = r
        if hit is False: continue
        rest = acc(base, evs[:n]) if n else base
        gg = and_(subst(g, sub_), *[dmember(subst(d, sub_), sub_[b]) for b, d in bs])
        v = subst(pl[1], sub_)
        return ite(gg, v, mget(rest, k))
    return mget(base, k)

def match_key(bs, pat, k):
    """one binder, pattern p(b): solve p(b) = k syntactically when p is injective
    (a map element reference, or the binder itself)"""
    if len(bs) != 1: return None
    b = bs[0][0]
    if pat is b: return True, {b: k}
    if pat.op == 'mget' and pat.args[1] is b and k.op == 'mget' and k.args[0] is pat.args[0] and b not in atoms(pat.args[0]):
        return True, {b: k.args[1]}
    if pat.op == 'vget' and pat.args[1] is b and k.op == 'vget' and k.args[0] is pat.args[0] and b not in atoms(pat.args[0]):
        return True, {b: k.args[1]}
    return None

# ------------------------------------------------------------- substitution
def subterms(x):
    if isinstance(x, T): yield x
    elif isinstance(x, tuple):
        for y in x: yield from subterms(y)

def all_subterms(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        for y in t: all_subterms(y, seen)
    elif isinstance(t, T) and t not in seen:
        seen.add(t)
        for y in t.args: all_subterms(y, seen)
    return seen

def atoms(t):
    """all sym/bv leaves"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t: r |= atoms(x)
        return r
    if not isinstance(t, T): return frozenset()
    if t._atoms is None:
        if t.op in ('sym', 'bv'): t._atoms = frozenset((t,))
        elif t.op == 'acc':
            s = set(atoms(t.args[0]))
            for (bs, g, op, pl) in t.args[1]:
                e = set(atoms(g)) | atoms(pl)
                for b, d in reversed(bs):
                    e.discard(b)
                    e |= atoms(d)
                s |= e
            t._atoms = frozenset(s)
        elif t.op == 'lam':
            t._atoms = atoms(t.args[1]) - {t.args[0]}
        else:
            s = set()
            for a in t.args:
                s |= atoms(a)
            t._atoms = frozenset(s)
    return t._atoms

def rebuild(op, args, sort, t=None):
    f = REBUILD.get(op)
    if f: return f(args, sort)
    if op.startswith('mk:'): return mk(sort, *args)
    return mkraw(op, args, sort)

def _poly(args, sort):
    terms_ = []
    for mono, c in args[0]:
        terms_.append(mul(Rl(c) if sort == 'R' else I(c) if c.denominator == 1 else Rl(c), *mono) if mono else num(c, sort))
    r = add(*terms_) if len(terms_) > 1 else terms_[0]
    return toreal(r) if sort == 'R' else r

REBUILD = {
    'poly': _poly,
    'rinv': lambda a, s: rinv(a[0]),
    'not': lambda a, s: not_(a[0]),
    'and': lambda a, s: and_(*a), 'or': lambda a, s: or_(*a),
    'le0': lambda a, s: le0(a[0]), 'lt0': lambda a, s: lt0(a[0]),
    'eq0': lambda a, s: eq(a[0], num(0, a[0].sort)), 'eq': lambda a, s: eq(a[0], a[1]),
    'ite': lambda a, s: ite(*a), 'sel': lambda a, s: sel(a[0], a[1]),
    'asel': lambda a, s: asel(*a), 'aset': lambda a, s: aset(*a),
    'vlen': lambda a, s: vlen(a[0]), 'vget': lambda a, s: vget(*a), 'vset': lambda a, s: vset(*a),
    'vpush': lambda a, s: vpush(*a), 'vrep': lambda a, s: vrep(*a),
    'mput': lambda a, s: mput(*a), 'mins': lambda a, s: mins(*a), 'mget': lambda a, s: mget(*a),
    'mhas': lambda a, s: mhas(*a), 'msize': lambda a, s: msize(a[0]),
    'at': lambda a, s: at(*a), 'mset': lambda a, s: mset(*a), 'mmul': lambda a, s: mmul(*a),
    'minv': lambda a, s: minv(a[0]), 'mt': lambda a, s: mt(a[0]), 'madd': lambda a, s: madd(*a),
    'mscale': lambda a, s: mscale(*a), 'mat': lambda a, s: mat(a[0], a[1:]),
    'idiv': lambda a, s: idiv(*a), 'imod': lambda a, s: imod(*a), 'trunc': lambda a, s: trunc(a[0]),
    'until': lambda a, s: duntil(*a), 'exists': lambda a, s: dexists(*a), 'first': lambda a, s: dfirst(*a), 'last': lambda a, s: dlast(*a),
    'count': lambda a, s: dcount(a[0]),
}

def subst(t, m, memo=None):
    if not m: return t
    if memo is None: memo = {}
    keys = set(m)
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x in m: return m[x]
        if not (atoms(x) & leafkeys) and not nonleaf: return x
        r = memo.get(x)
        if r is None:
            if x.op == 'acc':
                evs = []
                for e in x.args[1]:
                    bs, g, op, pl = open_event(e)
                    evs.append((tuple((b, go(d)) for b, d in bs), go(g), op, go(pl)))
                r = memo[x] = acc(go(x.args[0]), regroup(x.args[1], evs))
                return r
            if x.op == 'mins' and nonleaf:
                h = m.get(mhas(x.args[0], x.args[1]))
                if h is TRUE or h is FALSE:
                    r = memo[x] = go(x.args[0]) if h is TRUE else mput(go(x.args[0]), go(x.args[1]), go(x.args[2]))
                    return r
            if x.op == 'lam':
                b = bvar('k', x.args[0].sort)
                r = memo[x] = lam(b, go(beta(x, b)))
                return r
            r = rebuild(x.op, tuple(go(a) for a in x.args), x.sort, x) if x.args and x.op not in ('sym', 'bv') else x
            memo[x] = r
        return r
    leafkeys = frozenset(k for k in keys if k.op in ('sym', 'bv'))
    nonleaf = len(leafkeys) != len(keys)
    return go(t)

"""Loop rule.

A loop over an invariant domain is executed once, for an arbitrary element b,
from a state in which every location the body may change holds an arbitrary
value.  If the resulting value of a location is "old value, then these guarded
updates", where guards and payloads do not read loop-modified state (or read it
only through already summarised locations), then by induction over the domain
its value before element b is acc(init, updates | elements before b) and after
the loop acc(init, updates | all elements): that acc term IS the inductive loop
invariant, its base case and its preservation hold by construction of acc.
Anything else is not summarised and raises Unsupported."""
import hashlib, re, bdd
from terms import *
import terms as tm
from exec import *
import exec as exm

UNROLL = 40

def run(ex, st, fr, s):
    ex.nloops += 1
    if s[0] == 'forrange': return forrange(ex, st, fr, s)
    return general(ex, st, fr, s)

# ------------------------------------------------------------ range-for loops
def concrete_vec(v):
    xs = []
    while v.op == 'vpush': xs.append(v.args[1]); v = v.args[0]
    if v.op == 'vnil': return xs[::-1]
    if v.op == 'vrep' and v.args[0].op == 'int' and v.args[0].args[0] <= UNROLL and not xs:
        return [v.args[1]] * v.args[0].args[0]
    if v.op == 'vset':
        b = concrete_vec(v.args[0])
        if b is not None and v.args[1].op == 'int' and not xs and 0 <= v.args[1].args[0] < len(b):
            b[v.args[1].args[0]] = v.args[2]; return b
    return None

def forrange(ex, st, fr, s):
    _, ln, vd, rng, rty, body = s
    r = ex.ev(st, fr, rng)
    byref = is_ref(vd[3])
    var = ('v', fr.n, vd[1])
    val = ex.val(st, r)
    def bind(S, elem_loc, elem_val):
        if byref and elem_loc is not None: S.d[var] = ('ref', elem_loc)
        else:
            v = elem_val if elem_val is not None else ex.read(S, elem_loc)
            so = sort_of(vd[3])
            if so == 'M':
                S.d[var] = ex.newbuf(S, v)
                if elem_loc is not None: S.d[('esc', S.d[var].args[0])] = True
            else: S.d[var] = ex.coerce(v, so)
        for bid, bn, bexp in vd[6]:
            S.d[('v', fr.n, bid)] = ('ref', ex.ev(S, fr, bexp))
    if isinstance(val, Py) and val.kind == 'list':
        return unroll_items(ex, st, fr, [(None, x) for x in val.items], bind, body)
    if not isinstance(val, T): raise Unsupported('range-for over %s' % type(val).__name__)
    so = val.sort
    loc = r if isinstance(r, Loc) else None
    def sub_(p, es): return Loc(loc.root, loc.path + (p,), es) if loc is not None else None
    if so[0] == 'arr':
        if so[1] > UNROLL: raise Unsupported('range-for over a large array')
        return unroll_items(ex, st, fr, [(sub_(('a', I(i)), so[2]), sel(val, i) if loc is None else None) for i in range(so[1])], bind, body)
    if so[0] == 'vec':
        xs = concrete_vec(val)
        if xs is not None:
            return unroll_items(ex, st, fr, [(sub_(('v', I(i)), so[1]), x if loc is None else None) for i, x in enumerate(xs)], bind, body)
        b = bvar('k', 'I'); dom = drange(I(0), vlen(val))
        def bd(S): bind(S, sub_(('v', b), so[1]), vget(val, b) if loc is None else None)
    elif so[0] == 'map':
        b = bvar('k', so[1]); dom = dkeys(val)
        es = ('st', 'pair', so[1], so[2])
        def bd(S): bind(S, sub_(('e', b), es), mk(es, b, mget(val, b)) if loc is None else None)
    elif so[0] == 'set':
        b = bvar('k', so[1]); dom = dkeys(val)
        def bd(S): bind(S, None, b)
    else: raise Unsupported('range-for over %s' % (so,))
    def iteration(S):
        bd(S)
        return ex.stmt(S, fr, body)
    return foreach(ex, st, dom, b, iteration)

def unroll_items(ex, st, fr, items, bind, body):
    live = [st]; outs = []; brk = []
    for loc, v in items:
        nxt = []
        for S in live:
            bind(S, loc, v)
            for o in ex.stmt(S, fr, body):
                if o.kind in ('n', 'continue'): nxt.append(o.st)
                elif o.kind == 'break': brk.append(o.st)
                else: outs.append(o)
        live = ex.merge(nxt)
    return outs + [Out('n', x) for x in ex.merge(live + brk)]

# -------------------------------------------------------------- general loops
def general(ex, st, fr, s):
    if s[0] == 'for':
        _, ln, init, cond, inc, body = s
        if init is not None: st = ex.stmt(st, fr, init)[0].st
    elif s[0] == 'while': _, ln, cond, body = s; inc = None
    else: _, ln, cond, body = s; inc = None
    isdo = s[0] == 'do'
    # 1. concrete unrolling while the condition is a constant
    nchk = len(ex.checks)
    drawn = dict(ex.nrnd or {})
    r = try_unroll(ex, st.clone(), fr, cond, inc, body, isdo)
    if r is not None: return r
    del ex.checks[nchk:]
    ex.nrnd = dict(drawn)
    if isdo: raise Unsupported('do-while loop with symbolic condition')
    if ex.loop_hook is not None:
        r = ex.loop_hook(ex, st, fr, s, cond, inc, body)
        if r is not None: return r
    # 2. symbolic: find what the loop changes, then the induction variable
    def one(S):
        """cond; body; inc -> (cond term, outs)"""
        c = ex.boolean(S, ex.ev(S, fr, cond)) if cond is not None else TRUE
        S.assume(c)
        outs = ex.stmt(S, fr, body)
        res = []
        cont = []
        for o in outs:
            if o.kind in ('n', 'continue'): cont.append(o.st)
            else: res.append(o)
        for x in ex.merge(cont):
            if inc is not None: ex.ev(x, fr, inc)
            res.append(Out('n', x))
        return c, res
    H = {}
    ex.binders.append(bvar('it', 'I'))
    try:
        for _ in range(12):
            S = st.clone()
            ex.nrnd = dict(drawn)
            havoc(ex, S, H, st)
            entry = view(ex, S)
            c, outs = one(S)
            ch = changed(ex, st, entry, [o.st for o in outs])
            new = {k: v for k, v in ch.items() if k not in H}
            if not new: break
            for k, so in new.items(): H[k] = mkatom(k, so)
        else: raise Unsupported('loop effect does not stabilise')
    finally:
        ex.binders.pop()
    del ex.checks[nchk:]      # this pass only looks for the induction variable
    ex.nrnd = dict(drawn)
    normal = [o.st for o in outs if o.kind == 'n']
    conj = list(c.args) if c.op == 'and' else [c]
    A = {a for a in H.values() if isinstance(a, T)} | {a.pos for a in H.values() if isinstance(a, Iter)}
    for k, a in H.items():
        atom = a.pos if isinstance(a, Iter) else a
        if not isinstance(atom, T): continue
        outv = []
        for n in normal:
            v = n.d.get(k)
            if isinstance(v, Iter): v = v.pos
            outv.append(ex.deref(n, v) if isinstance(v, T) else v)
        if not outv: continue
        iv0 = st.d.get(k)
        ispos = isinstance(iv0, Iter)
        init = iv0.pos if ispos else iv0
        # map iterators
        if ispos and iv0.kind in ('map', 'set'):
            if all(isinstance(v, T) and v.op == 'mnext' and v.args[0] is atom for v in outv) and init.op == 'mbegin':
                cc = [x for x in conj if x.op == 'mvalid' and x.args[1] is atom]
                if cc:
                    b = bvar('k', atom.sort)
                    rest = and_(*[x for x in conj if x not in cc])
                    return induct(ex, st, fr, k, b, dkeys(init.args[0]), one, Iter(iv0.loc, iv0.kind, b), rest, atom, None)
            continue
        if atom.sort != 'I': continue
        step = [sub(v, atom) for v in outv if isinstance(v, T)]
        if len(step) != len(outv) or any(not isnum(x) for x in step) or len({x.args[0] for x in step}) != 1: continue
        d = step[0].args[0]
        if d == 0: continue
        for cj in conj:
            if atom not in atoms(cj): continue
            bound = solve_bound(cj, atom, d)
            if bound is not None and atoms(bound) & A: bound = same_bound(ex, st, bound, H, A, atom, normal)
            if bound is None or atoms(bound) & A: continue
            rest = and_(*[x for x in conj if x is not cj])
            r = split_bound(ex, st, fr, s, cond, bound)
            if r is not None: return r
            if d == 1 and isnum(init) and init.args[0] > 0 and not isnum(bound):
                b = bvar('k', 'I'); dom = drange(I(0), sub(bound, init)); vb = add(b, init)      # counted from zero
            elif d == 1:
                b = bvar('k', 'I'); dom = drange(init, bound); vb = b
            elif d > 1:
                b = bvar('k', 'I'); dom = drange(I(0), idiv(add(sub(bound, init), I(d - 1)), I(d))); vb = add(init, mul(I(d), b))
            elif d == -1:
                # runs while atom >= bound
                b = bvar('k', 'I'); dom = drange(I(0), add(sub(init, bound), I(1))); vb = sub(init, b)
            else: continue
            final = bound if d == 1 else None
            return induct(ex, st, fr, k, b, dom, one, Iter(iv0.loc, iv0.kind, vb) if ispos else vb, rest, atom, final)
    r = chase(ex, st, fr, s, one, c, normal, H, A)
    if r is not None: return r
    raise Unsupported('loop without a recognised induction variable (line %s)' % s[1])

def same_bound(ex, st, bound, H, A, atom, normal):
    """a bound read from state the body changes, whose value no iteration changes (the length of a vector updated in place)"""
    ks = {a: k for k, a in H.items() if isinstance(a, T)}
    need = atoms(bound) & A
    if atom in need or not need <= set(ks): return None
    for n in normal:
        now = {}
        for a in need:
            v = ex.deref(n, ex.getroot(n, ks[a]))
            if not isinstance(v, T): return None
            now[a] = v
        if subst(bound, now) is not bound: return None
    return subst(bound, {a: ex.deref(st, ex.getroot(st, ks[a])) for a in need})

def split_bound(ex, st, fr, s, cond, bound):
    """for (k < (g ? 5 : 4)): the loop of each case"""
    gs = {x.args[0] for x in all_subterms(bound) if x.op == 'ite' and x.args[1].sort == 'I' and isnum(x.args[1]) and isnum(x.args[2])}
    if len(gs) != 1: return None
    g = gs.pop()
    outs = []
    for truth in (TRUE, FALSE):
        S = st.clone().assume(g if truth is TRUE else not_(g))
        for k, v in list(S.d.items()):
            if k[0] == 'v' and isinstance(v, T) and g in all_subterms(v): S.d[k] = subst(v, {g: truth})
        rest = ('while',) + (s[1], cond, s[3]) if s[0] == 'while' else ('for', s[1], None, cond, s[4], s[5])
        outs += general(ex, S, fr, rest)
    norm = [o.st for o in outs if o.kind == 'n']
    return [o for o in outs if o.kind != 'n'] + [Out('n', x) for x in ex.merge(norm)]

def search_loop(budget=None, best=None):
    """Rule for a search loop (RANSAC): variables that change together under one guard hold, after any
    number of iterations, either their initial values or the values of one accepted iteration; all other
    loop-carried variables hold arbitrary values.  That disjunction is the inductive invariant, preserved by
    construction.  Obligations: the iteration counter stays below the budget (argument `budget`), and a
    candidate replaces the best one exactly when it has more rows than the best one so far."""
    def hook(ex, st, fr, s, cond, inc, body):
        if fr.fn['name'] != ex.top: return None
        def one(S):
            c = ex.boolean(S, ex.ev(S, fr, cond)) if cond is not None else TRUE
            S.assume(c)
            outs = ex.stmt(S, fr, body)
            if any(o.kind not in ('n', 'continue') for o in outs): raise Unsupported('search loop with early exit')
            ns = ex.merge([o.st for o in outs])
            if len(ns) != 1: raise Unsupported('search loop states cannot be merged')
            if inc is not None: ex.ev(ns[0], fr, inc)
            return c, ns[0]
        def init_of(k): return ex.deref(st, ex.getroot(st, k)) if k in st.d or k[0] in ('h', 'g') else None
        H = {}; perm = {}
        n0 = len(ex.checks)
        ex.binders.append(bvar('it', 'I'))
        try:
            drawn = dict(ex.nrnd or {})
            for _ in range(14):
                S = st.clone(); del ex.checks[n0:]
                ex.nrnd = dict(drawn)
                havoc(ex, S, H, st)
                pc0 = S.pc
                entry = view(ex, S)
                c, N = one(S)
                ch = changed(ex, st, entry, [N])
                if best is not None and not any(('v', 'arg', i) in ch for i in best):
                    del ex.checks[n0:]
                    return None
                new = {k: so for k, so in ch.items() if k not in H}
                again = bool(new)
                for k, so in new.items(): H[k] = mkatom(k, so)
                for k in ch:        # a permutation of itself: any composition of permutations
                    v = N.d.get(k)
                    if k not in perm and isinstance(v, T) and v.op == 'vshuffle' and v.args[0] is H[k]:
                        perm[k] = H[k] = mkraw('vshuffle', (init_of(k), fresh('shuffle', 'I')), v.sort); again = True
                if not again: break
            else: raise Unsupported('loop effect does not stabilise')
        finally: ex.binders.pop()
        A = {a for k, a in H.items() if k not in perm}
        fr_ = {a: fresh('then', a.sort) for a in A}
        val = {k: ex.deref(N, ex.getroot(N, k)) for k in H}
        # ---- variables updated together under one guard
        guards = {}
        for k, a in H.items():
            v = val[k]
            if v.op == 'ite' and (v.args[1] is a) != (v.args[2] is a):
                g = v.args[0] if v.args[2] is a else not_(v.args[0])
                guards.setdefault(g, {})[k] = v.args[1] if v.args[2] is a else v.args[2]
        group, G = {}, FALSE
        for g, d in guards.items():
            if best is not None and any(k == ('v', 'arg', i) or H[k].sort == 'M' for k in d for i in best): group, G = d, g
        found = fresh('found', 'B')
        res = st.clone()
        for k, a in H.items():
            i0 = init_of(k)
            if k in group: v = ite(found, subst(group[k], fr_), i0)
            elif k in perm: v = a
            else: v = fresh('after', a.sort)
            setkey2(ex, res, k, v)
        for k in N.d:
            if k[0] == 'n': res.d[k] = max(res.d.get(k, 0), N.d[k])
        # ---- obligations
        if budget is not None:
            it = ex.val(st, fr_arg(ex, fr, st, budget))
            cs = [k for k, a in H.items() if isinstance(a, T) and a.sort == 'I' and sub(val[k], a) is I(1) and init_of(k) is I(0)]
            ok = [k for k in cs if lt(H[k], it) in conjuncts(c)]
            ex.checks.append(('the search stops within the iteration budget', pc0, TRUE if ok else or_(*[or_(not_(c), lt(H[k], it)) for k in cs])))
        if best is not None:
            rows = [k for k in group if group[k].sort == 'M' and group[k].op == 'acc']
            cnt = {H[k]: mrows(H[rows[0]]) for k in group if rows and group[k].sort == 'I' and group[k] is mrows(group[rows[0]]) and init_of(k) is mrows(init_of(rows[0]))}
            if len(rows) == 1:
                g = subst(G, cnt)
                want = lt(mrows(H[rows[0]]), mrows(group[rows[0]]))
                ex.checks.append(('a model replaces the best one exactly when more correspondences support it', pc0 + (subst(c, cnt),), and_(or_(not_(g), want), or_(not_(want), g))))
                ex.checks.append(('the search starts without support', st.pc, eq(mrows(init_of(rows[0])), I(0))))
            else: ex.checks.append(('one model and its inliers are kept together', st.pc, FALSE))
            ex.witness = dict(found=found, **{nm: subst(group[('v', 'arg', i)], fr_) if ('v', 'arg', i) in group else None for i, nm in best.items()})
        return [Out('n', res)]
    return hook

def setkey2(ex, S, k, v):
    """new content of a matrix: visible to everyone who holds its buffer"""
    cur = S.d.get(k)
    if v.sort == 'M' and isinstance(cur, T) and cur.op == 'buf': S.d[('b', cur.args[0])] = v
    else: setkey(ex, S, k, v)

def fr_arg(ex, fr, st, i):
    pid, nm, ty = fr.fn['params'][i]
    return st.d[('v', fr.n, pid)]

def chase(ex, st, fr, s, one, c, normal, H, A):
    """while (cond(x)) { ...; x = step(x); }: element b of the loop is the b-th
    iterate of step, the number of iterations is the first iterate without cond.
    Termination is an obligation when the contract names a measure, else assumed."""
    m = ex.merge([n.clone() for n in normal])
    if len(m) != 1: return None
    for k, a in H.items():
        if not isinstance(a, T) or k[0] != 'v': continue
        v = m[0].d.get(k)
        if not isinstance(v, T): continue
        v = ex.deref(m[0], v)
        if atoms(v) & A != {a} or atoms(c) & A != {a}: continue
        init = ex.deref(st, st.d[k])
        x = bvar('x', a.sort)
        stepf, condf = lam(x, subst(v, {a: x})), lam(x, subst(c, {a: x}))
        if ex.rank is not None:
            for n in normal:
                ex.checks.append(('the loop terminates: its measure decreases', n.pc, ex.rank(a, ex.deref(n, n.d[k]))))
        else: ex.trusted.add('termination of the loop at line %s' % s[1])
        N = mkraw('whilelen', (condf, stepf, init), 'I')
        b = bvar('k', 'I')
        it = mkraw('iterate', (stepf, init, b), a.sort)
        known = set(conjuncts(subst(c, {a: it})))
        def iteration(S):
            S.d[k] = it
            return one(S)[1]
        outs = foreach(ex, st, drange(I(0), N), b, iteration, skip=(k,), known=known)
        final = mkraw('iterate', (stepf, init, N), a.sort)
        if c.op == 'not' and c.args[0].op in ('eq0', 'eq'):
            for cand in sorted(atoms(c) - {a}, key=lambda t: t.id):
                if cand.sort == a.sort and not_(eq(a, cand)) is c: final = cand
        for o in outs:
            if o.kind == 'n': o.st.d[k] = final
        return outs
    return None

def conjuncts(c): return c.args if c.op == 'and' else (c,)

def solve_bound(c, atom, d):
    """c: condition on atom; returns hi with c <=> atom < hi (d>0) or lo with c <=> atom >= lo (d<0)"""
    if c.op == 'le0' and c.args[0].sort == 'I':
        p = poly(c.args[0])
        k = p.get((atom,), 0)
        if k == 0 or any(atom in m and m != (atom,) for m in p): return None
        restp = frompoly({m: v for m, v in p.items() if m != (atom,)}, 'I')
        if k == 1 and d > 0: return add(neg(restp), I(1))      # atom + r <= 0  <=> atom < 1-r
        if k == -1 and d < 0: return restp                      # -atom + r <= 0 <=> atom >= r
        return None
    if c.op == 'not' and c.args[0].op == 'eq0' and c.args[0].args[0].sort == 'I':
        p = poly(c.args[0].args[0])
        k = p.get((atom,), 0)
        if abs(k) != 1 or any(atom in m and m != (atom,) for m in p): return None
        restp = frompoly({m: v for m, v in p.items() if m != (atom,)}, 'I')
        n = scale(restp, -k)
        if d == 1: return n
        if d == -1: return add(n, I(1))
    if c.op in ('lt0', 'le0') and c.args[0].sort == 'R':
        # integer counter compared with a real-valued bound
        p = poly(c.args[0])
        return None
    return None

def induct(ex, st, fr, key, b, dom, one, vb, rest, atom, final):
    st = st.clone()
    hold = {}
    def iteration(S):
        S.d[key] = vb
        c, outs = one(S)
        hold['c'] = c
        res = []
        return outs
    # remaining conjuncts act as an exit test
    def iteration2(S):
        S.d[key] = vb
        S0 = S.clone()
        c, outs = one(S)
        conj = list(c.args) if c.op == 'and' else [c]
        mem = dmember(dom, b)
        known = set(mem.args) if mem.op == 'and' else {mem}
        restc = and_(*[x for x in conj if x not in known and not is_implied(x, known)])
        if restc is not TRUE:
            x = S0.clone().assume(not_(restc))
            outs = outs + [Out('break', x)]
        return outs
    outs = foreach(ex, st, dom, b, iteration2 if True else iteration, skip=(key,))
    for o in outs:
        if o.kind == 'n':
            if final is not None and isinstance(vb, T):
                init = st.d[key]
                o.st.d[key] = final if le(init, final) is TRUE else ite(le(init, final), final, init)
            else: o.st.d[key] = fresh('iv', 'I') if not isinstance(vb, Iter) else vb
    return outs

def is_implied(x, known):
    if x.op == 'mvalid': return True
    if x.op == 'not' and x.args[0].op == 'eq0':
        # b != n within b < n
        p = x.args[0].args[0]
        for q in (add(p, I(1)), add(neg(p), I(1))):
            if le0(q) in known: return True
    return False

def try_unroll(ex, st, fr, cond, inc, body, isdo):
    live = [st]; outs = []; brk = []; n = 0
    nb = exm.Executor._buf
    first = isdo
    while True:
        nxt = []
        for S in live:
            if first: c = TRUE
            else:
                c = ex.boolean(S, ex.ev(S, fr, cond)) if cond is not None else TRUE
                c = ex.simp(S, c)
            if c is FALSE: brk.append(S); continue
            if c is not TRUE:
                return None
            n += 1
            if n > UNROLL: return None
            for o in ex.stmt(S, fr, body):
                if o.kind in ('n', 'continue'): nxt.append(o.st)
                elif o.kind == 'break': brk.append(o.st)
                else: outs.append(o)
        first = False
        if not nxt: break
        live = ex.merge(nxt)
        for S in live:
            if inc is not None: ex.ev(S, fr, inc)
    return outs + [Out('n', x) for x in ex.merge(brk)]

# ------------------------------------------------------------------- foreach
def mkatom(k, so):
    if isinstance(so, tuple) and so and so[0] == 'iter':
        it = so[1]
        return Iter(it.loc, it.kind, fresh('inpos', it.pos.sort))
    return fresh('in', so)

def havoc(ex, S, H, st):
    for k, a in H.items():
        if isinstance(a, Iter): S.d[k] = a
        elif a.sort == 'M':
            S.d[k] = ex.newbuf(S, a)
        else: S.d[k] = a

def view(ex, S):
    r = {}
    for k, v in S.d.items():
        if k[0] in ('b', 'esc', 'n'): continue
        if isinstance(v, T) and v.op == 'buf': v = S.d[('b', v.args[0])]
        r[k] = v
    return r

def changed(ex, st, entry, outs):
    res = {}
    for o in outs:
        for k, v in view(ex, o).items():
            e = entry.get(k)
            if e is None:
                if k[0] in ('h', 'g'):
                    base = ex.getroot(st, k)
                    if v is not base: res[k] = v.sort
                continue     # local to the body
            if k[0] == 'v' and k not in st.d: continue
            if v is e or (not isinstance(v, T) and v == e): continue
            if isinstance(v, T): res[k] = v.sort if not (isinstance(e, T) and e.sort != v.sort) else e.sort
            elif isinstance(v, Iter): res[k] = ('iter', v)
            elif isinstance(v, tuple) or isinstance(v, Py) or isinstance(v, Ptr): raise Unsupported('loop changes a reference or executor value')
            else: raise Unsupported('loop changes %s' % type(v).__name__)
    return res

def selected_keys(dom, b):
    """keys of a map that holds the selected keys of another map: (that map's keys, condition)"""
    if dom.op != 'keys': return None
    m = dom.args[0]
    if m.op != 'acc' or m.args[0].op != 'mnil' or len(m.args[1]) != 1: return None
    bs, g, op, pl = m.args[1][0]
    if op not in ('put', 'ins') or len(bs) != 1 or bs[0][1].op != 'keys' or pl[0] is not bs[0][0]: return None
    return bs[0][1], subst(g, {bs[0][0]: b}), subst(pl[1], {bs[0][0]: b})

def foreach(ex, st, dom, b, iteration, skip=(), known=()):
    src = selected_keys(dom, b)
    if src is not None:
        m = dom.args[0]
        dom, g, v = src
        tm.SELECTED[(m, b)] = v
        inner = iteration
        def iteration(S):
            if g is TRUE: return inner(S)
            B = S.clone(); B.assume(not_(g)); S.assume(g)
            return inner(S) + [Out('n', B)]
        return foreach(ex, st, dom, b, iteration, skip, known)
    H = {}
    # elements freshly allocated in the body are indexed by the binder
    ex.binders.append(b)
    n0 = len(ex.checks)
    drawn = dict(ex.nrnd or {})
    try:
        for _ in range(14):
            S = st.clone(); del ex.checks[n0:]
            ex.nrnd = dict(drawn)
            havoc(ex, S, H, st)
            S.assume(dmember(dom, b))
            base_pc = S.pc
            entry = view(ex, S)
            outs = iteration(S)
            ch = changed(ex, st, entry, [o.st for o in outs])
            new = {k: so for k, so in ch.items() if k not in H and k not in skip}
            if not new: break
            for k, so in new.items():
                H[k] = mkatom(k, so)
                if isinstance(H[k], T): tm.LOOP_OF[H[k]] = b
        else: raise Unsupported('loop effect does not stabilise')
        # a matrix pushed into a container must not be overwritten in place later
        for o in outs:
            for k, a in H.items():
                v = o.st.d.get(k)
                if isinstance(v, T) and v.op == 'buf' and o.st.d.get(('esc', v.args[0])):
                    pass
    finally:
        ex.binders.pop()
    if any(isinstance(a, Iter) for a in H.values()): raise Unsupported('loop advances a second iterator')
    A = {a: k for k, a in H.items()}
    normal = [o.st for o in outs if o.kind in ('n', 'continue')]
    exits = [o for o in outs if o.kind in ('break', 'return')]
    ctx = pc_rel(dmember(dom, b), ())
    init = {k: ex.deref(st, ex.getroot(st, k)) if k in st.d or k[0] in ('h', 'g') else None for k in H}
    m = ex.merge(normal) if normal else []
    if len(m) > 1: raise Unsupported('loop body states cannot be merged')
    member = dmember(dom, b)
    def clean(t):
        """conditions that hold for every element of the domain"""
        return subst_true(t, member)
    ev = {}
    for k, a in H.items():
        if not m: ev[k] = []; continue
        v = m[0].d.get(k)
        if v is None: ev[k] = []; continue
        v = ex.deref(m[0], v)
        ev[k] = decompose(v, a)
    old = older_reads(A, ev, init)
    # lists whose length no iteration changes
    same = {}
    for k, a in H.items():
        if isinstance(a.sort, tuple) and a.sort[0] == 'vec' and m and isinstance(init.get(k), T):
            n = vlen(a)
            v = m[0].d.get(k)
            if isinstance(v, T) and n.op == 'vlen' and vlen(ex.deref(m[0], v)) is n and vlen(init[k]) is not n: same[n] = vlen(init[k])
    if same:
        older = old
        old = lambda t: subst(older(t), same)
    exits = [o for o in exits if subst_true(old(and_(*[x for x in o.st.pc if x not in base_pc and x not in known])), member) is not FALSE]
    for k in ev:
        if ev[k] is not None: ev[k] = [(tuple((x, old(d)) for x, d in bs), old(g), op, old(pl)) for bs, g, op, pl in ev[k]]
    # resolve dependencies
    prev = previous_reads(A, ev, b, dom)
    pre = {}
    resolved = set()
    bdom = before(dom, b)
    progress = True
    while progress:
        progress = False
        for k, a in H.items():
            if k in resolved or ev[k] is None: continue
            evs = [prev(subst_ev(e, pre)) for e in ev[k]]
            deps = set().union(*[ev_atoms(e) for e in evs]) & set(A) if evs else set()
            if a in deps:
                evs2 = self_reference(evs, a, init[k], bdom, b, set(A) - {a})
                if evs2 is not None:
                    evs = evs2
                    deps = set().union(*[ev_atoms(e) for e in evs]) & set(A) if evs else set()
            if deps: continue
            ev[k] = evs
            pre[a] = finish(init[k], lift(evs, bdom, b))
            resolved.add(k)
            progress = True
    stuck = [k for k in H if k not in resolved]
    # obligations met in the body: loop-carried state is what the invariant says it is
    ex.checks[n0:] = [(nm, tuple(subst(old(x), pre) for x in pc), None if g is None else subst(old(g), pre)) for nm, pc, g in ex.checks[n0:]]
    folds = {}
    if stuck:
        sk = scalar(ex, st, stuck, H, m, pre, b)
        if sk is not None: return scalar_loop(ex, st, dom, b, iteration, skip, known, sk)
        if exits:
            if any(o.kind == 'return' for o in exits): raise Unsupported('loop-carried state %s with early exit' % [show_key(k) for k in stuck])
            return live_loop(ex, st, dom, b, iteration, skip, known)
        folds = make_fold(ex, st, dom, b, stuck, H, pre, m, init, old)
    # exit condition
    E = FALSE
    econd, live = [], []
    for o in exits:
        c = and_(*[x for x in o.st.pc if x not in base_pc and x not in known])
        c = subst_true(subst(old(c), pre), member)
        if c is FALSE: continue
        if atoms(c) & set(A):
            if all(x.kind == 'break' for x in exits): return live_loop(ex, st, dom, b, iteration, skip, known)
            raise Unsupported('loop exit depends on loop-carried state')
        econd.append(c); live.append(o)
    exits = live
    E = or_(*econd)
    res = st.clone()
    for o in outs:
        for k in o.st.d:
            if k[0] == 'n': res.d[k] = max(res.d.get(k, 0), o.st.d[k])
    domu = duntil(dom, lam(b, E)) if exits else dom
    for k in H:
        if k in resolved: v = finish(init[k], lift(ev[k], domu, b))
        else: v = folds[k]
        setkey(ex, res, k, v)
    # names allocated in the body stay distinct from later ones by their binder
    for k in list(res.d):
        if k[0] == 'v' and k not in st.d: del res.d[k]
    if any(k[0] == 'esc' for o in outs for k in o.st.d):
        for o in outs:
            for k in o.st.d:
                if k[0] == 'esc' and ('b', k[1]) in res.d: res.d[k] = True
    result = []
    if not exits: return [Out('n', res)]
    found = dexists(dom, lam(b, E))
    bstar = dfirst(dom, lam(b, E))
    at_exit = dict(pre)
    for a, k in A.items():
        at_exit[a] = ex.deref(res, ex.getroot(res, k)) if not isinstance(ex.getroot(res, k), tuple) else None
    at_exit[b] = bstar
    nstates = []
    n0 = res.clone().assume(not_(found))
    if all(o.kind == 'return' for o in exits):
        for k in H:
            if k in resolved: setkey(ex, n0, k, finish(init[k], lift(ev[k], dom, b)))
    nstates.append(n0)
    for o, c in zip(exits, econd):
        s2 = res.clone()
        s2.assume(found)
        if len(exits) > 1: s2.assume(subst(c, at_exit))
        for k in H:
            v = o.st.d.get(k)
            if v is None: continue
            v = ex.deref(o.st, v)
            setkey(ex, s2, k, subst(old(v), at_exit))
        for k in list(o.st.d):
            if k[0] in ('h', 'g') and k not in H and k not in st.d: pass
        if o.kind == 'break': nstates.append(s2)
        else:
            v = o.val
            if isinstance(v, T): v = subst(ex.deref(o.st, v), at_exit)
            elif isinstance(v, Loc): v = subst(ex.read(o.st, v), at_exit)
            elif v is not None: raise Unsupported('return of %s inside a loop' % type(v).__name__)
            result.append(Out('return', s2, v))
    for x in ex.merge(nstates): result.append(Out('n', x))
    return result

def live_loop(ex, st, dom, b, iteration, skip, known):
    """a loop that is left early, by a condition on what it carries, as a loop over the whole domain
    in which the remaining iterations do nothing"""
    n = sum(1 for k in st.d if k[0] == 'v' and k[1] == 'live')
    key = ('v', 'live', n)
    st = st.clone(); st.d[key] = TRUE
    def run(S):
        S = S.clone()
        f = ex.deref(S, S.d[key])
        B = S.clone().assume(not_(f)); S.assume(f)
        if f is TRUE: B = None
        outs = []
        for o in iteration(S):
            if o.kind == 'break': o.st.d[key] = FALSE; o = Out('n', o.st)
            outs.append(o)
        return outs + ([Out('n', B)] if B is not None else [])
    outs = foreach(ex, st, dom, b, run, skip, known)
    for o in outs: o.st.d.pop(key, None)
    return outs

def scalar(ex, st, stuck, H, m, pre, b):
    """a local list of which the loop changes one element only: (its key, the index)"""
    A = set(H.values())
    for k in stuck:
        a = H[k]
        if k[0] != 'v' or not (isinstance(a.sort, tuple) and a.sort[0] == 'vec'): continue
        e = a.sort[1]
        if not (e in ('I', 'R', 'B') or isinstance(e, tuple) and e[0] == 'st' and all(f in ('I', 'R', 'B') for f in e[2:])): continue
        v = ex.deref(m[0], m[0].d[k])
        idx = set()
        if not one_element(v, a, idx) or len(idx) != 1: continue
        i, = idx
        if atoms(i) & A or b in atoms(i): continue
        return k, i
    return None
def one_element(v, a, idx):
    if v is a: return True
    if v.op == 'ite': return one_element(v.args[1], a, idx) and one_element(v.args[2], a, idx)
    if v.op == 'vset': idx.add(v.args[1]); return one_element(v.args[0], a, idx)
    return False

def scalar_loop(ex, st, dom, b, iteration, skip, known, sk):
    key, i = sk
    st = st.clone()
    base = ex.deref(st, st.d[key])
    e = vget(base, i)
    fs = [('v', 'elem', len(st.d), j) for j in range(nfields(e.sort))] if isinstance(e.sort, tuple) else [('v', 'elem', len(st.d), 0)]
    def split(x): return [sel(x, j) for j in range(nfields(x.sort))] if isinstance(x.sort, tuple) else [x]
    def build(S):
        xs = [ex.deref(S, S.d[f]) for f in fs]
        return mk(e.sort, *xs) if isinstance(e.sort, tuple) else xs[0]
    for f, x in zip(fs, split(e)): st.d[f] = x
    def run(S):
        S.d[key] = vset(base, i, build(S))
        outs = iteration(S)
        for o in outs:
            v = ex.deref(o.st, o.st.d[key])
            for f, x in zip(fs, split(vget(v, i))): o.st.d[f] = x
            o.st.d[key] = base
        return outs
    outs = foreach(ex, st, dom, b, run, skip, known)
    for o in outs:
        o.st.d[key] = vset(base, i, build(o.st))
        for f in fs: del o.st.d[f]
    return outs

def previous_reads(A, ev, b, dom):
    """every iteration gives the object it allocates a new list: the length of the list of the object of the previous iteration"""
    cols = {}
    for a, k in A.items():
        if not (isinstance(a.sort, tuple) and a.sort[0] == 'hp' and isinstance(a.sort[1], tuple) and a.sort[1][0] == 'vec' and ev.get(k)): continue
        es = ev[k]
        if any(bs or op != 'put' or pl[0].op != 'new' or pl[0] is not es[0][3][0] or pl[0].args[2][-1] is not b for bs, g, op, pl in es): continue
        if len(es) == 2 and es[0][1] is not not_(es[1][1]) or len(es) == 1 and es[0][1] is not TRUE or len(es) > 2: continue
        n = vlen(es[-1][3][1])
        if len(es) == 2: n = ite(es[0][1], vlen(es[0][3][1]), n)
        if not (atoms(n) & set(A)): cols[a] = (es[0][3][0], n)
    if not cols: return lambda e: e
    first = le0(sub(I(1), b)) if dom.op == 'range' and dom.args[0] is I(0) else None  # b >= 1 is b != 0 here
    def length(a, q):
        key, n = cols[a]
        if q.op == 'ite': return ite(q.args[0], length(a, q.args[1]), length(a, q.args[2]))
        if q.op == 'new' and q.args[:2] == key.args[:2] and len(q.args[2]) == len(key.args[2]) and q.args[2][:-1] == key.args[2][:-1]:
            d = sub(b, q.args[2][-1])
            if isnum(d) and d.args[0] == 1: return subst(n, {b: q.args[2][-1]})
        return mkraw('vlen', (mget(a, q),), 'I')
    def go(t):
        m, seen = {}, set()
        def find(x):
            if isinstance(x, tuple):
                for y in x: find(y)
            if not isinstance(x, T) or x in seen or not (atoms(x) & set(cols)): return
            seen.add(x)
            if x.op == 'vlen' and x.args[0].op == 'mget' and x.args[0].args[0] in cols: m[x] = length(*x.args[0].args)
            find(x.args)
        find(t)
        return subst(t, m) if m else t
    def event(e):
        bs, g, op, pl = e
        if first is not None: bs, g, op, pl = subst_nonleaf(e, {first: not_(eq(b, I(0)))})
        g = go(g)
        return (tuple((x, go(under(d, g))) for x, d in bs), g, op, tuple(go(under(x, g)) for x in pl))
    return event

def under(t, g):
    """the term where condition g holds: alternatives it decides are taken"""
    if isinstance(t, tuple): return tuple(under(x, g) for x in t)
    if not isinstance(t, T) or not t.args: return t
    known = {c: TRUE for c in conjuncts(g)}
    known.update({not_(c): FALSE for c in conjuncts(g)})
    known.pop(TRUE, None); known.pop(FALSE, None)
    def go(x, known):
        if isinstance(x, tuple): return tuple(go(y, known) for y in x)
        if not isinstance(x, T) or not x.args or x.op in ('sym', 'bv', 'lam', 'fold'): return x
        if x.op == 'acc': return acc(go(x.args[0], known), [(tuple((y, go(d, known)) for y, d in bs), go(g, known), op, go(pl, known)) for bs, g, op, pl in open_events(x)])
        if x.op == 'ite':
            c = x.args[0]
            if c in known: return go(x.args[1] if known[c] is TRUE else x.args[2], known)
            return ite(c, go(x.args[1], {**known, c: TRUE, not_(c): FALSE}), go(x.args[2], {**known, c: FALSE, not_(c): TRUE}))
        return rebuild(x.op, tuple(go(y, known) for y in x.args), x.sort, x)
    return go(t, known)

def older_reads(A, ev, init):
    """an object field which the loop writes only in objects it allocates itself keeps, in every
    object that existed before, the value it had before the loop"""
    cols = {}
    for a, k in A.items():
        if isinstance(a.sort, tuple) and a.sort[0] == 'hp' and ev.get(k) and all(
                (op == 'put' or op.startswith('at:')) and pl[0].op == 'new' for bs, g, op, pl in ev[k]):
            cols[a] = (init[k], [pl[0] for bs, g, op, pl in ev[k]])
    if not cols: return lambda t: t
    inA = set(A)
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T) or not (atoms(x) & inA): return x
        r = memo.get(x)
        if r is None:
            if x.op == 'acc':
                r = acc(go(x.args[0]), [(tuple((b, go(d)) for b, d in bs), go(g), op, go(pl)) for bs, g, op, pl in open_events(x)])
            elif x.op == 'lam':
                b = bvar('k', x.args[0].sort)
                r = lam(b, go(beta(x, b)))
            elif x.op in ('mget', 'mhas') and x.args[0] in cols:
                q = go(x.args[1])
                i, keys = cols[x.args[0]]
                if not (atoms(q) & inA) and all(preexisting(q, n) for n in keys): r = (mget if x.op == 'mget' else mhas)(i, q)
                else: r = (mget if x.op == 'mget' else mhas)(x.args[0], q)
            elif x.args and x.op not in ('sym', 'bv'): r = rebuild(x.op, tuple(go(y) for y in x.args), x.sort, x)
            else: r = x
            memo[x] = r
        return r
    return go

def show_key(k): return '/'.join(str(x) for x in k)

def setkey(ex, S, k, v):
    if v.sort == 'M' and k[0] == 'v': S.d[k] = ex.newbuf(S, v)
    else: S.d[k] = v

def pc_rel(c, _): return c

def subst_true(t, member):
    ps = member.args if member.op == 'and' else (member,)
    t = subst(t, {p: TRUE for p in ps if p.op not in ('bool',)})
    if any(not_(c) in ps for c in (t.args if t.op == 'and' else (t,))): return FALSE
    return t

def before(dom, b):
    if dom.op == 'range': return drange(dom.args[0], b)
    if dom.op == 'until': return before(dom.args[0], b)
    return mkraw('before', (dom, b), 'D')

def lift(evs, dom, b):
    """prefix every event with the loop binder"""
    return [(((b, dom),) + bs, g, op, pl) for (bs, g, op, pl) in evs]

def ev_atoms(e):
    bs, g, op, pl = e
    s = set(atoms(g)) | atoms(pl)
    for b, d in bs: s |= atoms(d)
    return s
def subst_ev(e, m):
    if not m: return e
    bs, g, op, pl = e
    return (tuple((b, subst(d, m)) for b, d in bs), subst(g, m), op, subst(pl, m))

def self_reference(evs, a, init, bdom, b, others):
    """resolve reads of the accumulator itself: its length (unconditional pushes)
    and 'insert when absent'"""
    out = []
    # 1. length / size
    L = mkraw('vlen', (a,), 'I') if isinstance(a.sort, tuple) and a.sort[0] == 'vec' else mkraw('rows', (a,), 'I') if a.sort == 'M' else None
    if L is not None:
        # growth per iteration must not depend on the accumulator
        growth = acc_len2([(bs, g, op, ()) for (bs, g, op, pl) in evs if op in ('push', 'mpushrow')])
        if growth is not None and not (atoms(growth) & ({a} | others)) and all(e[2] in ('push', 'mpushrow') or e[2].startswith('at:') or e[2] == 'put' for e in evs):
            l0 = vlen(init) if a.sort != 'M' else mrows(init)
            if b in atoms(growth):
                tot = finish(I(0), lift([((), TRUE, 'add', (growth,))], bdom, b))
            else: tot = mul(growth, dcount_nonneg(bdom))
            evs = [subst_nonleaf(e, {L: add(l0, tot)}) for e in evs]
            if not any(a in ev_atoms(e) for e in evs): return evs
    # 1b. every update of an iteration goes to the element named by its own binder:
    # that element still has its initial value when the iteration starts
    if isinstance(a.sort, tuple) and a.sort[0] in ('vec', 'map') and evs and all(
            (e[2] in ('put',) or e[2].startswith('at:')) and e[3][0] is b for e in evs):
        g = vget if a.sort[0] == 'vec' else mget
        old = mkraw('vget' if a.sort[0] == 'vec' else 'mget', (a, b), a.sort[1] if a.sort[0] == 'vec' else a.sort[2])
        m_ = {old: g(init, b)}
        if a.sort[0] == 'map': m_[mkraw('mhas', (a, b), 'B')] = mhas(init, b)
        else: m_[mkraw('vlen', (a,), 'I')] = vlen(init)
        evs = [subst_nonleaf(e, m_) for e in evs]
        if not any(a in ev_atoms(e) for e in evs): return evs
    # 2. insert when absent
    for e in evs:
        bs, g, op, pl = e
        if op == 'put' and a in atoms(g):
            h = mkraw('mhas', (a, pl[0]), 'B')
            gs = list(g.args) if g.op == 'and' else [g]
            if not_(h) in gs:
                g2 = and_(*[x for x in gs if x is not not_(h)])
                if a not in atoms(g2) and a not in atoms(pl):
                    e = (bs, g2, 'ins', pl)
        if op == 'push' and a in atoms(g):
            gs = list(g.args) if g.op == 'and' else [g]
            for x in gs:
                y = not_(x)
                if y.op == 'exists' and y.args[0].op == 'range' and y.args[0].args[1].op == 'vlen' and y.args[0].args[1].args[0] is a:
                    k = fresh('q', 'I')
                    body = beta(y.args[1], k)
                    want = eq(mkraw('vget', (a, k), a.sort[1]), pl[0])
                    g2 = and_(*[z for z in gs if z is not x])
                    if body is want and a not in atoms(g2) and a not in atoms(pl):
                        e = (bs, g2, 'pushu', pl)
        out.append(e)
    return out

def subst_nonleaf(e, m):
    bs, g, op, pl = e
    return (tuple((b, subst(d, m)) for b, d in bs), subst(g, m), op, subst(pl, m))

def dcount_nonneg(d):
    if d.op == 'range': return sub(d.args[1], d.args[0])
    return dcount(d)

def acc_len2(evs):
    n = I(0)
    for (bs, g, op, pl) in evs:
        if g is not TRUE: return None
        if not bs: n = add(n, I(1))
        elif len(bs) == 1: n = add(n, dcount(bs[0][1]))
        else: return None
    return n

# ------------------------------------------------------------- decomposition
def decompose(v, base):
    """v as a sequence of guarded updates applied to base; None if not possible"""
    if v is base: return []
    if base not in atoms(v): return [((), TRUE, 'set', (v,))]
    r = _dec(v, base)
    return r if r is None or v.sort != 'M' else overwritten(r)

def overwritten(evs):
    """two assignments of the same matrix element one after the other"""
    r = []
    for e in evs:
        bs, g, op, pl = e
        if r and op == 'mset' and not bs and r[-1][0] == () and r[-1][2] == 'mset' and len(pl) == 3 and pl[:2] == r[-1][3][:2]:
            g0, v0 = r[-1][1], r[-1][3][2]
            r[-1] = ((), or_(g0, g), 'mset', pl[:2] + (ite(g, pl[2], v0),))
        else: r.append(e)
    return r

def _dec(v, base):
    if v is base: return []
    op = v.op
    if op == 'ite':
        c, x, y = v.args
        mm = extremum(c, x, y, base)
        if mm is not None: return mm
        if x.op != 'ite' and base not in atoms(x): ex_ = [((), TRUE, 'set', (x,))]
        else: ex_ = _dec(x, base) if base in atoms(x) else [((), TRUE, 'set', (x,))]
        ey = _dec(y, base) if base in atoms(y) else [((), TRUE, 'set', (y,))]
        if ex_ is None or ey is None: return None
        return join_events(c, ex_, ey)
    if op == 'vpush': 
        r = dec_or_set(v.args[0], base)
        return None if r is None else r + [((), TRUE, 'push', (v.args[1],))]
    if op == 'mpushrow':
        r = dec_or_set(v.args[0], base)
        return None if r is None else r + [((), TRUE, 'mpushrow', (v.args[1],))]
    if op in ('mput', 'vset', 'aset'):
        m, k, x = v.args
        r = dec_or_set(m, base)
        if r is None: return None
        if op == 'mput' and k.sort == 'I' and k is msize(m):
            return r + [((), TRUE, 'appid', (x,))]          # stored under the next free identifier
        return r + nested(m, base, k, x, (mget if op == 'mput' else vget if op == 'vset' else asel), (k,))
    if op == 'mins':
        r = dec_or_set(v.args[0], base)
        return None if r is None else r + [((), TRUE, 'ins', (v.args[1], v.args[2]))]
    if op == 'sins':
        r = dec_or_set(v.args[0], base)
        return None if r is None else r + [((), TRUE, 'sins', (v.args[1],))]
    if op == 'acc':
        r = dec_or_set(v.args[0], base)
        return None if r is None else r + open_events(v)
    if v.sort in ('I', 'R'):
        p = poly(v)
        if p.get((base,)) == 1:
            rest = frompoly({m: c for m, c in p.items() if m != (base,)}, v.sort)
            if base not in atoms(rest): return [((), TRUE, 'add', (rest,))]
        # base multiplied
        if len(p) == 1:
            (mono, c), = p.items()
            if mono.count(base) == 1:
                l = list(mono); l.remove(base)
                f = frompoly({tuple(l): c}, 'R' if v.sort == 'R' else 'I')
                if base not in atoms(f): return [((), TRUE, 'mul', (f,))]
        # guarded additions inside:  base + ite(c, x, 0) is covered above
        return None
    if v.sort == 'B':
        if op == 'or' and base in v.args:
            rest = or_(*[x for x in v.args if x is not base])
            if base not in atoms(rest): return [((), rest, 'set', (TRUE,))]
        if op == 'and' and base in v.args:
            rest = and_(*[x for x in v.args if x is not base])
            if base not in atoms(rest): return [((), not_(rest), 'set', (FALSE,))]
        return None
    if v.sort == 'S':
        if op == 'scat' and v.args[0] is base:
            rest = mkraw('scat', v.args[1:], 'S') if len(v.args) > 2 else v.args[1]
            if base not in atoms(rest): return [((), TRUE, 'scat', (rest,))]
        return None
    if v.sort == 'M':
        if op == 'mmul':
            if v.args[0] is base:
                rest = mmul(*v.args[1:])
                if base not in atoms(rest): return [((), TRUE, 'mulR', (rest,))]
            if v.args[-1] is base:
                rest = mmul(*v.args[:-1])
                if base not in atoms(rest): return [((), TRUE, 'mulL', (rest,))]
        if op == 'madd' and base in v.args:
            rest = v.args[1] if v.args[0] is base else v.args[0]
            if base not in atoms(rest): return [((), TRUE, 'madd', (rest,))]
        if op == 'mset':
            r = dec_or_set(v.args[0], base)
            return None if r is None else r + [((), TRUE, 'mset', (v.args[1], v.args[2], v.args[3]))]
        return None
    if isinstance(v.sort, tuple) and v.sort[0] in ('st', 'arr') and op.startswith('mk:'):
        evs = []
        for i, x in enumerate(v.args):
            bi = sel(base, i)
            if x is bi: continue
            if base not in atoms(x): evs.append(((), TRUE, 'put', (I(i), x))); continue
            f = fresh('fld', bi.sort)
            y = subst(x, {bi: f})
            if base in atoms(y): return None
            r = _dec(y, f)
            if r is None: return None
            evs += [(bs, g, 'at:' + o, (I(i),) + pl) for bs, g, o, pl in r]
        return evs
    if op == 'vclear': return None
    return None

def dec_or_set(v, base):
    if v is base: return []
    if base not in atoms(v): return [((), TRUE, 'set', (v,))]
    return _dec(v, base)

def nested(m, base, k, x, getter, key):
    """x is stored at k of m: is it an update of the element already there?"""
    old = getter(m, k)
    cands = [old]
    o2 = getter(base, k) if m is not base else None
    for o in cands:
        if o.op in ('mget', 'vget', 'asel') or o.op == 'at':
            if contains(x, o):
                f = fresh('el', o.sort)
                y = subst(x, {o: f})
                if f in atoms(y):
                    r = decompose(y, f)
                    if r is not None and not any(f in ev_atoms(e) for e in r):
                        return [(bs, g, 'at:' + op, key + pl) for bs, g, op, pl in r]
                    if r is not None:
                        # remaining self reads: length of the element container
                        back = {f: o}
                        return [subst_ev((bs, g, 'at:' + op, key + pl), back) for bs, g, op, pl in r]
    return [((), TRUE, 'put', key + (x,))]

def contains(t, s):
    seen = set()
    def go(x):
        if isinstance(x, tuple): return any(go(y) for y in x)
        if not isinstance(x, T): return False
        if x is s: return True
        if x in seen: return False
        seen.add(x)
        return any(go(a) for a in x.args)
    return go(t)

def extremum(c, x, y, base):
    """running minimum or maximum"""
    if base.sort not in ('I', 'R') or not (x is base or y is base) or x is y: return None
    e = y if x is base else x
    if base in atoms(e): return None
    for t in (conjuncts(c) if y is base else disjuncts(c)):
        small, big = t in (lt(e, base), le(e, base)), t in (lt(base, e), le(base, e))      # e smaller / larger where t holds
        if not (small or big): continue
        rest = [u for u in (conjuncts(c) if y is base else disjuncts(c)) if u is not t]
        g = and_(*rest) if y is base else and_(*[not_(u) for u in rest])
        if base in atoms(g): return None
        takes = y is base
        return [((), g, 'min' if small == takes else 'max', (e,))]
    return None
def disjuncts(c): return c.args if c.op == 'or' else (c,)

def join_events(c, xs, ys):
    """events of ite(c, xs, ys)"""
    n = 0
    while n < len(xs) and n < len(ys) and xs[n] == ys[n]: n += 1
    pre = xs[:n]; xs = xs[n:]; ys = ys[n:]
    if xs and len(xs) == len(ys) and all(a[2] == b[2] and a[0] == b[0] == () and len(a[3]) == len(b[3])
                                         and a[1] is TRUE and b[1] is TRUE for a, b in zip(xs, ys)):
        return pre + [((), TRUE, a[2], tuple(ite(c, p, q) for p, q in zip(a[3], b[3]))) for a, b in zip(xs, ys)]
    return pre + [(bs, and_(c, g), op, pl) for bs, g, op, pl in xs] + [(bs, and_(not_(c), g), op, pl) for bs, g, op, pl in ys]

# ------------------------------------------------------------------ finishing
def finish(init, evs):
    """normalised value of a location after the events"""
    evs = [e for e in evs if e[1] is not FALSE]
    if not evs: return init
    s = init.sort
    if isinstance(s, tuple) and s[0] == 'vec' and init.op == 'vrep' and init.args[1].op == 'vnil' and all(e[2] == 'at:push' and len(e[3]) == 2 for e in evs):
        # buckets: element c holds what was pushed at c (indices stay within the vector: undefined behaviour otherwise)
        c = bvar('k', 'I')
        inner = finish(init.args[1], [(bs, and_(g, eq(pl[0], c)), 'push', pl[1:]) for bs, g, op, pl in evs])
        return acc(vnil(s[1]), [(((c, drange(I(0), init.args[0])),), TRUE, 'push', (inner,))])
    if s in ('I', 'R') and all(e[2] == 'add' for e in evs):
        tot = [init]
        for bs, g, op, pl in evs:
            if len(bs) > 1:
                # a sum over two loops is the sum of the sums of the inner one
                inn = {b for b, d in bs[1:]}
                gi = [c for c in conjuncts(g) if atoms(c) & inn]
                go = [c for c in conjuncts(g) if not atoms(c) & inn]
                tot.append(finish(num(0, s), [(bs[:1], and_(*go), 'add', (finish(num(0, s), [(bs[1:], and_(*gi), 'add', pl)]),))]))
                continue
            bs, g, x = from_zero(bs, g, pl[0])
            bvs = {b for b, d in bs}
            # linear split of the payload
            for mono, c in poly(x).items():
                outer = [t for t in mono if not (atoms(t) & bvs)]
                inner = tuple(t for t in mono if atoms(t) & bvs)
                coef = frompoly({tuple(sorted(outer, key=lambda t: t.id)): c}, s if s == 'R' or c.denominator == 1 else 'R')
                if not inner and g is TRUE and independent(bs):
                    cnt = I(1)
                    for b, d in bs: cnt = mul(cnt, dcount_nonneg(d) if d.op == 'range' else dcount(d))
                    tot.append(mul(coef, cnt if s == 'I' else toreal(cnt)))
                else:
                    y = frompoly({inner: Fraction(1)}, s)
                    body = acc(num(0, s), [(bs, g, 'add', (y,))])
                    tot.append(mul(coef, body))
        return add(*tot)
    if s == 'B' and all(e[2] == 'set' and e[3][0].op == 'bool' for e in evs):
        if all(e[3][0] is TRUE for e in evs):
            return or_(init, *[exists_of(bs, g) for bs, g, op, pl in evs])
        if all(e[3][0] is FALSE for e in evs):
            return and_(init, *[not_(exists_of(bs, g)) for bs, g, op, pl in evs])
    if isinstance(s, tuple) and s[0] in ('arr', 'st') and all((e[2].startswith('at:') or e[2] == 'put') and e[3][0].op == 'int' for e in evs):
        # component by component
        return mk(s, *[finish(sel(init, i), [(bs, g, op[3:] if op != 'put' else 'set', pl[1:]) for bs, g, op, pl in evs if pl[0].args[0] == i]) for i in range(nfields(s))])
    if isinstance(s, tuple) and s[0] == 'hp':
        # every update goes to one and the same object: an update of that object's value
        key = evs[0][3][0] if evs[0][2].startswith('at:') else None
        if key is not None and all(e[2].startswith('at:') and e[3][0] is key and not (atoms(key) & {b for b, d in e[0]}) for e in evs):
            return mput(init, key, finish(mget(init, key), [(bs, g, op[3:], pl[1:]) for bs, g, op, pl in evs]))
    if isinstance(s, tuple) and s[0] == 'vec':
        # every element of the vector is replaced by a function of itself and its position
        bs0 = evs[0][0]
        if bs0 and bs0[0][1] is drange(I(0), vlen(init)) and all(e[0] and e[0][0][1] is bs0[0][1] and (e[2].startswith('at:') or e[2] == 'put') and e[3][0] is e[0][0][0] for e in evs):
            b = bs0[0][0]
            loc = []
            for bs, g, op, pl in [subst_ev(e, {e[0][0][0]: b}) if e[0][0][0] is not b else e for e in evs]:
                loc.append((bs[1:], g, op[3:] if op != 'put' else 'set', pl[1:]))
            if all(bs for bs, g, op, pl in loc) or all(not bs for bs, g, op, pl in loc):
                x = vget(init, b)
                for bs, g, op, pl in loc:
                    if bs: break
                    nx = apply_event(x, op, pl)
                    if nx is None: return acc(init, evs)
                    x = ite(g, nx, x)
                else: return acc(vnil(s[1]), [(((b, bs0[0][1]),), TRUE, 'push', (x,))])
    if len(evs) == 1 and evs[0][2] == 'set' and len(evs[0][0]) == 1:
        # the last element that takes part decides
        ((b, d),), g, _, (x,) = evs[0]
        f = lam(b, g)
        return ite(dexists(d, f), subst(x, {b: dlast(d, f)}) if b in atoms(x) else x, init)
    return acc(init, evs)

def from_zero(bs, g, x):
    """a sum over l..h (l a number, or 0 with the first element left out) is counted from zero"""
    if len(bs) != 1 or bs[0][1].op != 'range' or not isnum(bs[0][1].args[0]): return bs, g, x
    b, d = bs[0]
    lo, hi = d.args
    ne0 = not_(eq(b, I(0)))
    if lo is I(0) and ne0 in conjuncts(g):
        lo = I(1)
        g = and_(*[c for c in conjuncts(g) if c is not ne0])
    if lo is I(0): return bs, g, x
    m = {b: add(b, lo)}
    return ((b, drange(I(0), sub(hi, lo))),), subst(g, m), subst(x, m)

def apply_event(x, op, pl):
    """value of a location after one update"""
    if op == 'set': return pl[0]
    if op == 'add': return add(x, pl[0])
    if op == 'push': return vpush(x, pl[0])
    if op.startswith('at:') or op == 'put':
        s = x.sort
        if not isinstance(s, tuple): return None
        get, put_ = (mget, mput) if s[0] in ('map', 'hp') else (vget, vset) if s[0] == 'vec' else (asel, aset) if s[0] in ('arr', 'st') else (None, None)
        if get is None: return None
        if op == 'put': return put_(x, pl[0], pl[1])
        y = apply_event(get(x, pl[0]), op[3:], pl[1:])
        return None if y is None else put_(x, pl[0], y)
    return None

def exists_of(bs, g):
    r = g
    for b, d in reversed(bs): r = dexists(d, lam(b, r))
    return r

def independent(bs):
    seen = set()
    for b, d in bs:
        if atoms(d) & seen: return False
        seen.add(b)
    return True

def make_fold(ex, st, dom, b, stuck, H, pre, m, init, old=lambda t: t):
    """generic recursive definition (used only up to structural equality); every location gets the definition
    over exactly the locations its value depends on"""
    A = {H[k]: k for k in stuck}
    body = {}
    for k in stuck:
        v = ex.getroot(m[0], k) if k[0] in ('h', 'g') else m[0].d.get(k)
        body[k] = subst(old(ex.deref(m[0], v)), pre)
        D = bdd.diagram(body[k], lambda c: c.id)
        if D is not None: body[k] = D.term()
    own_slots(stuck, H, body, init, b, dom)
    deps = {k: {A[a] for a in atoms(body[k]) if a in A} for k in stuck}
    closure = {}
    for k in stuck:
        todo, seen = [k], set()
        while todo:
            q = todo.pop()
            if q in seen: continue
            seen.add(q); todo += deps[q]
        closure[k] = frozenset(seen)
    res, made = {}, {}
    for k in stuck:
        c = closure[k]
        if c not in made:
            ks = fold_order([q for q in stuck if q in c], H, body, init, b)
            h = 1 + max(fold_height(x) for x in [dom] + [body[q] for q in ks] + [init[q] for q in ks])
            names = {H[q]: mkraw('sym', ('fold#%d.%d' % (h, j),), H[q].sort) for j, q in enumerate(ks)}
            F = mkraw('fold', (dom, tuple(init[q] for q in ks), tuple(lam(b, canonical(subst(body[q], names))) for q in ks), h), 'F')
            made[c] = (F, {q: j for j, q in enumerate(ks)})
        F, pos = made[c]
        res[k] = mkraw('foldproj', (F, pos[k]), H[k].sort)
    return res

def own_slots(stuck, H, body, init, b, dom):
    """what iteration b reads of a local map at b was put there before the loop, if every iteration uses the entry of its own number only"""
    if dom.op not in ('range', 'keys'): return
    for k in stuck:
        a = H[k]
        if k[0] != 'v' or not (isinstance(a.sort, tuple) and a.sort[0] == 'map'): continue
        slots = {x for q in stuck for x in all_subterms(body[q]) if x.op in ('mget', 'mhas') and x.args[0] is a}
        if any(x.args[1] is not b for x in slots): continue
        hide = {x: fresh('slot', x.sort) for x in slots}
        rest = {q: subst(body[q], hide) for q in stuck}
        if any(a in atoms(rest[q]) for q in stuck if q != k) or not own_slot(rest[k], a, b): continue
        back = {hide[x]: (mget if x.op == 'mget' else mhas)(init[k], b) for x in slots}
        for q in stuck: body[q] = subst(rest[q], back)
def own_slot(v, a, b):
    if v is a: return True
    if v.op == 'ite': return a not in atoms(v.args[0]) and own_slot(v.args[1], a, b) and own_slot(v.args[2], a, b)
    if v.op == 'acc': return own_slot(v.args[0], a, b) and all((op == 'put' or op.startswith('at:')) and pl[0] is b and not any(a in atoms(x) for x in pl[1:] + (g,) + tuple(d for _, d in bs)) for bs, g, op, pl in v.args[1])
    if v.op in ('mput', 'mins'): return v.args[1] is b and not any(a in atoms(x) for x in v.args[2:]) and own_slot(v.args[0], a, b)
    return False

_fh = {}
def fold_height(x):
    if isinstance(x, tuple): return max([fold_height(y) for y in x], default=0)
    if not isinstance(x, T): return 0
    h = _fh.get(x)
    if h is None:
        h = max([fold_height(y) for y in x.args[:3]] + [x.args[3]]) if x.op == 'fold' else max([fold_height(y) for y in x.args], default=0)
        _fh[x] = h
    return h

def fold_order(ks, H, body, init, b):
    """an order of the locations of a recursive definition that does not depend on their names (locals) or order of declaration"""
    if len(ks) == 1: return ks
    color = {q: (0, str(q[1:])) if q[0] in ('h', 'g') else (1, str(H[q].sort) + '|' + skel(init[q])) for q in ks}
    for _ in range(3):
        rank = {c: i for i, c in enumerate(sorted(set(color.values())))}
        rep = {H[q]: mkraw('sym', ('loc%d' % rank[color[q]],), H[q].sort) for q in ks}
        color = {q: color[q][:2] + (essence(subst(body[q], rep), b),) for q in ks}
    return sorted(ks, key=lambda q: color[q])

def canonical(t):
    D = bdd.diagram(t, lambda c: (digest(c), c.id))
    return t if D is None else D.term()
def essence(t, b):
    """digest of a value that does not depend on how its case distinctions are written"""
    D = bdd.diagram(t, lambda c: c.id)
    return skel(t, b) if D is None else ' '.join(sorted(skel(x, b) for x in D.support()))

def skel(t, b=None):
    """digest of a term, the same for every numbering of its atoms made up during execution"""
    return digest(lam(b, t) if b is not None else t)
_dig = {}
def digest(x):
    if isinstance(x, tuple): return hashlib.md5(('(' + ' '.join(sorted(digest(y) for y in x)) + ')').encode()).hexdigest()
    if not isinstance(x, T): return str(x)
    r = _dig.get(x)
    if r is None:
        if x.op == 'sym': r = re.sub(r'(?<=[A-Za-z_])[#!.$]\d+', '', str(x.args[0]))
        elif x.op == 'bv': r = 'bv'
        else: r = '%s(%s)' % (x.op, ' '.join(sorted(digest(y) for y in x.args)))
        r = _dig[x] = hashlib.md5(r.encode()).hexdigest()
    return r

# ------------------------------------------------ recursive definitions in a canonical form
_rc, _hasfold = {}, {}
def has_fold(x):
    if isinstance(x, tuple): return any(has_fold(y) for y in x)
    if not isinstance(x, T): return False
    r = _hasfold.get(x)
    if r is None: r = _hasfold[x] = x.op == 'fold' or any(has_fold(y) for y in x.args)
    return r
def recanon(x):
    """x with the components of its recursive definitions in an order that depends on what they are only (what they start from may have
    become known after they were made)"""
    if isinstance(x, tuple): return tuple(recanon(y) for y in x)
    if not isinstance(x, T) or not has_fold(x): return x
    r = _rc.get(x)
    if r is None:
        if x.op == 'foldproj' and isinstance(x.args[0], T) and x.args[0].op == 'fold':
            F, pos = reorder(x.args[0])
            r = mkraw('foldproj', (F, pos[x.args[1]]), x.sort)
        elif x.op == 'acc':
            evs = [(tuple((b, recanon(d)) for b, d in bs), recanon(g), op, recanon(pl)) for bs, g, op, pl in open_events(x)]
            r = tm.acc(recanon(x.args[0]), tm.regroup(x.args[1], evs))
        elif x.op == 'lam':
            b = bvar('k', x.args[0].sort)
            r = lam(b, recanon(tm.beta(x, b)))
        elif x.op == 'fold': return x
        else: r = tm.rebuild(x.op, tuple(recanon(a) for a in x.args), x.sort, x)
        _rc[x] = r
    return r

_ro = {}
def reorder(F):
    r = _ro.get(F)
    if r is not None: return r
    dom, init, lams = recanon(F.args[0]), recanon(F.args[1]), F.args[2]
    own, n = F.args[3], len(init)
    old = {j: mkraw('sym', ('fold#%d.%d' % (own, j),), init[j].sort) for j in range(n)}
    b = bvar('k', lams[0].args[0].sort)
    loc = {j: bvar('loc', old[j].sort) for j in range(n)}
    body = {j: recanon(subst(tm.beta(l, b), {old[i]: loc[i] for i in range(n)})) for j, l in enumerate(lams)}
    ks = fold_order([('v', j) for j in range(n)], {('v', j): loc[j] for j in range(n)}, {('v', j): body[j] for j in range(n)},
                    {('v', j): init[j] for j in range(n)}, b)
    ks = [k[1] for k in ks]
    h = 1 + max(fold_height(x) for x in [dom] + [body[j] for j in ks] + [init[j] for j in ks])
    new = {loc[j]: mkraw('sym', ('fold#%d.%d' % (h, i),), loc[j].sort) for i, j in enumerate(ks)}
    G = mkraw('fold', (dom, tuple(init[j] for j in ks), tuple(lam(b, canonical(subst(body[j], new))) for j in ks), h), 'F')
    r = _ro[F] = (G, {j: i for i, j in enumerate(ks)})
    _ro.setdefault(G, (G, {i: i for i in range(n)}))
    return r

def foldproj(a, s):
    F = a[0]
    if F.op == 'fold' and F.args[0].op == 'range' and le(F.args[0].args[1], F.args[0].args[0]) is TRUE: return F.args[1][a[1]]
    return mkraw('foldproj', a, s)
tm.REBUILD['foldproj'] = foldproj

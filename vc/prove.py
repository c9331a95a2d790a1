"""Discharging obligations  hyps |- a = b.

Back ends, in order: the normalising term kernel (both sides reduce to the same
normal form), congruence over comprehensions / case splits (with the binder's
domain added to the hypotheses), and z3 for what is left (linear and nonlinear
integer/real arithmetic with uninterpreted functions)."""
from terms import *
import terms as tm
import lib as lib_
import time
import z3

def is_any(t): return isinstance(t, T) and (t.op == 'any' or t.op in ('at', 'at1', 'sel') and is_any(t.args[0]))

def deep(x, out=None):
    """subterms outside comprehensions"""
    if out is None: out = []
    if isinstance(x, tuple):
        for y in x: deep(y, out)
    elif isinstance(x, T):
        out.append(x)
        if x.op not in ('acc', 'lam', 'sym', 'bv'): deep(x.args, out)
    return out

def canon(t):
    import loops
    return loops.recanon(t)

class Stats:
    def __init__(self): self.kernel = self.congr = self.z3 = 0; self.ring = 0; self.z3_time = 0.0; self.ring_time = 0.0; self.failed = 0

class Prover:
    def __init__(self, timeout=8000):
        self.timeout = timeout
        self.stats = Stats()
        self.trace = []
        self.cache = {}
        self.budget = 400

    # ------------------------------------------------------------ interface
    def equal(self, a, b, hyps=()):
        """(True, backend) or (False, explanation)"""
        self.why = None
        self.depthmax = 0
        self.steps = 0
        self.used_z3 = False
        a, b = canon(a), canon(b)
        if a is b:
            self.stats.kernel += 1
            return True, 'kernel'
        h = self.norm_hyps(hyps)
        r = self.eq(a, b, h, 0)
        if r:
            if self.used_z3: self.stats.z3 += 1
            else: self.stats.congr += 1
            return True, 'z3' if self.used_z3 else 'congruence'
        self.stats.failed += 1
        return False, self.why or ('%s  /=  %s' % (clip(a), clip(b)))

    def valid(self, g, hyps=()):
        g = canon(g)
        if g is TRUE:
            self.stats.kernel += 1
            return True, 'kernel'
        h = self.norm_hyps(hyps)
        self.steps = 0; self.why = None
        if self.under(g, h) is TRUE:
            self.stats.congr += 1
            return True, 'congruence'
        self.used_z3 = False; self.used_ring = False
        g = self.under(g, h)
        if g.op == 'and':
            for x in g.args:
                ok, how = self.valid(x, hyps)
                if not ok: return ok, how
            return ok, how
        if g.op == 'not' and g.args[0].op == 'exists':
            # for every element: for an arbitrary one
            d, f = g.args[0].args
            c = sym('any.%d' % len(f.args[0].args), f.args[0].sort)
            h = self.norm_hyps(h + (dmember(d, c),))
            g = not_(beta(f, c))
        if g.op == 'or': h = self.norm_hyps(h + tuple(not_(x) for x in g.args))
        h = self.elements(g, h)
        if self.cases(g, h, 0):
            if self.used_ring: self.stats.ring += 1
            else: self.stats.z3 += 1
            return True, 'ring' if self.used_ring else 'z3'
        self.stats.failed += 1
        return False, self.why or clip(g)

    def elements(self, g, h):
        """facts about the elements the goal mentions: an element of a permutation is an element of the permuted
        list, an element of a comprehension is its payload for some member of its domain that passes the guard"""
        done, todo, n, perms = set(), deep(g), 0, []
        every = [x.args[0] for x in h if x.op == 'not' and x.args[0].op == 'exists']
        if every: todo += [x for x in all_subterms((g,) + tuple(h)) if x.op in ('vget', 'at1', 'mget', 'mhas') and isinstance(x.args[1], T)
                           and not any(y.op == 'bv' and isinstance(y.args[0], int) for y in atoms(x.args[1]))]
        later, fresh_ = [], 0          # terms to look at again once more is known
        while n < 16:
            if not todo:
                if not later or fresh_ == n: break
                todo, later, fresh_ = later, [], n
            t = todo.pop()
            if t in done: continue
            if t.op == 'mhas':
                for d, f in (x.args for x in every):
                    if d.op == 'keys' and d.args[0] is t.args[0] and (t.args[1], f) not in done and f.args[0].sort == t.args[1].sort:
                        done.add((t.args[1], f)); n += 1
                        h = self.norm_hyps(h + (or_(not_(t), not_(beta(f, t.args[1]))),))
                continue
            if t.op in ('vget', 'at1', 'mget') and isinstance(t.args[1], T):
                # what holds for every element of a domain holds for this one
                for d, f in (x.args for x in every):
                    if f.args[0].sort != t.args[1].sort or (t.args[1], f) in done: continue
                    if not self.cases(dmember(d, t.args[1]), h, 4): later.append(t); continue
                    done.add((t.args[1], f))
                    x = not_(beta(f, t.args[1]))
                    n += 1
                    h = self.norm_hyps(h + (x,))
                    todo += [y for y in deep(x) if y not in done]
            if t.op == 'draw' and len(t.args) == 3:
                if not self.cases(le(t.args[1], t.args[2]), h, 4): later.append(t); continue
                done.add(t); n += 1
                h = self.norm_hyps(h + (le(t.args[1], t), le(t, t.args[2])))
                continue
            u = t.args[0] if t.op == 'trunc' else t
            if u.op not in ('vget', 'at1'): continue
            c, i = u.args
            if c.op == 'vshuffle' and u.op == 'vget':
                if not self.cases(and_(le(num(0, 'I'), i), lt(i, vlen(c))), h, 4): later.append(t); continue
                q = mkraw('perm', (c.args[1], i), 'I')
                e = vget(c.args[0], q)
                new = [eq(t, e), le(num(0, 'I'), q), lt(q, vlen(c.args[0]))]
                # a permutation is one-to-one
                new += [or_(not_(eq(q, r)), eq(i, r.args[1])) for r in perms if r.args[0] is q.args[0]]
                perms.append(q)
            elif c.op == 'acc' and len(c.args[1]) == 1 and c.args[0] in (default('M'), vnil(c.sort[1]) if isinstance(c.sort, tuple) else None):
                (bs, gd, op, pl), = open_events(c)
                if op not in ('push', 'mpushrow'): continue
                import exec as exm
                ln = vlen(c) if u.op == 'vget' else exm.mrows(c)
                if not self.cases(and_(le(num(0, 'I'), i), lt(i, ln)), h, 4): later.append(t); continue
                m = {b: mkraw('member', (c, i, num(k, 'I')), b.sort) for k, (b, d) in enumerate(bs)}
                new = [subst(dmember(d, b), m) for b, d in bs] + [subst(gd, m)]
                e = subst(pl[0], m)
                if e.sort == t.sort: new.append(eq(t, e))
                elif t.op == 'at1': new.append(eq(t, toreal(e)))
            else: continue
            done.add(t)
            n += 1
            h = self.norm_hyps(h + tuple(new))
            todo += [x for y in new for x in deep(y) if x not in done]
        return h

    def cases(self, g, h, d):
        """case split on the conditions inside g, then z3 / the ring back end"""
        g = self.under(g, h)
        if g is TRUE: return True
        c = innermost_cond(g) if d < 8 else None
        if c is not None:
            for cc in (c, not_(c)):
                h2 = self.norm_hyps(h + (cc,))
                if FALSE in h2 or not self.sat(h2): continue
                if not self.cases(decide(g, c, cc), h2, d + 1): return False
            return True
        if g.op == 'eq0' and g.args[0].sort == 'R' and self.ring(g.args[0], h):
            self.used_ring = True
            return True
        return self.smt(g, h)

    def ring(self, p, hyps):
        """p = 0 modulo the equalities of the hypotheses, sqrt(e)^2 = e and x*rinv(x) = 1
        (their side conditions e >= 0, x /= 0 are discharged by z3): Groebner basis reduction"""
        import sympy
        ats = {}
        gens = []
        todo = [q for q in [p] + [h.args[0] for h in hyps if h.op == 'eq0' and h.args[0].sort == 'R']]
        def S(t):
            r = 0
            for mono, c in poly(t).items():
                v = sympy.Rational(c.numerator, c.denominator)
                for x in mono: v = v * var(x)
                r += v
            return r
        eqs = []
        def var(x):
            if x not in ats:
                if len(ats) > 14: raise ValueError
                ats[x] = sympy.Symbol('v%d' % len(ats))
                gens.append(ats[x])
                if x.op == 'sqrt':
                    e = S(x.args[0])
                    eqs.append((ats[x] ** 2 - e, le0(neg(x.args[0]))))
                if x.op == 'rinv':
                    e = S(x.args[0])
                    eqs.append((ats[x] * e - 1, not_(eq(x.args[0], Rl(0)))))
            return ats[x]
        try: ps = [S(q) for q in todo]
        except ValueError: return False
        rel = [q for q in ps[1:]]
        pure = [h for h in hyps]
        for e, side in eqs:
            if side is not TRUE and not self.smt(side, hyps): return False
            rel.append(e)
        if not rel: return False
        t = time.time()
        try:
            order = sorted(gens, key=lambda v: -int(str(v)[1:]))
            G = sympy.groebner(rel, *order, order='grevlex')
            _, rem = sympy.reduced(ps[0], list(G.exprs), *order, order='grevlex')
            ok = rem == 0
        except Exception as e: ok = False
        self.stats.ring_time += time.time() - t
        if not ok: self.fail('ring: %s' % clip(p))
        return ok

    def norm_hyps(self, hyps):
        c = canon(and_(*hyps)) if hyps else TRUE
        for h in (c.args if c.op == 'and' else (c,)):
            m = equally_long(h)
            if m: c = and_(*[g if g is h else subst(g, m) for g in (c.args if c.op == 'and' else (c,))])
            x = empty_container(h)
            if x is not None:
                m = {x: no_elements(x)}
                c = and_(*[g if empty_container(g) is not None else subst(g, m) for g in (c.args if c.op == 'and' else (c,))])
        for _ in range(4):
            # unit propagation: disjunctions are simplified by the literals
            hs = c.args if c.op == 'and' else (c,)
            if not any(h.op == 'or' for h in hs): break
            m = {}
            for h in hs:
                if h.op in ('or', 'bool'): continue
                m[h] = TRUE
                n = not_(h)
                if n.op not in ('and', 'or'): m[n] = FALSE
            if not m: break
            c2 = and_(*[subst(h, m) if h.op == 'or' else h for h in hs])
            if c2 is c: break
            c = c2
        return tuple(c.args) if c.op == 'and' else (() if c is TRUE else (c,))

    # --------------------------------------------------------------- engine
    def under(self, t, hyps):
        """t simplified under the hypotheses"""
        if not hyps: return t
        key = (t, hyps)
        r = self.cache.get(key)
        if r is not None: return r
        m = {}
        for h in hyps:
            if h.op == 'bool': continue
            m[h] = TRUE
            n = not_(h)
            if n.op not in ('and', 'or'): m[n] = FALSE
            if h.op == 'eq':
                x, y = h.args
                # orient: replace symbols by the other side
                if x.op in ('sym', 'bv') and x not in atoms(y): m[x] = y
                elif y.op in ('sym', 'bv') and y not in atoms(x): m[y] = x
            if h.op == 'eq0' and h.args[0].sort == 'I':
                p = poly(h.args[0])
                x = empty_container(h)
                if x is not None: m[x] = no_elements(x)
                m.update(equally_long(h))
                for mono, c in p.items():
                    if len(mono) == 1 and abs(c) == 1 and mono[0].op in ('sym', 'bv'):
                        rest = frompoly({k: v for k, v in p.items() if k != mono}, 'I')
                        if mono[0] not in atoms(rest):
                            m[mono[0]] = scale(rest, -c) if c == 1 else rest
                            break
        r = subst(t, m)
        self.cache[key] = r
        return r

    def fail(self, msg):
        if self.why is None: self.why = msg
        return False

    def eq(self, a, b, hyps, d):
        if is_any(b): return True       # the contract leaves this value open
        self.steps += 1
        if a is b: return True
        if self.steps > 4000 or d > 60: return self.fail('proof search limit')
        if not isinstance(a, T) or not isinstance(b, T): return a == b
        a2, b2 = self.under(a, hyps), self.under(b, hyps)
        if a2 is b2: return True
        a, b = a2, b2
        if a.sort != b.sort and not ({a.sort, b.sort} <= {'I', 'R'}):
            return self.fail('sorts differ: %s / %s' % (a.sort, b.sort))
        # case split
        if a.op == 'mins' and b.op != 'mins': a = ite(mhas(*a.args[:2]), a.args[0], mput(*a.args))
        if b.op == 'mins' and a.op not in ('mins', 'ite'): b = ite(mhas(*b.args[:2]), b.args[0], mput(*b.args))
        for t in (a, b):
            if t.op == 'ite':
                c = t.args[0]
                save = self.why
                for cc in (c, not_(c)):
                    h2 = self.norm_hyps(hyps + (cc,))
                    if FALSE in h2 or not self.sat(h2): continue
                    if not self.eq(decide(a, c, cc), decide(b, c, cc), h2, d + 1): return False
                return True
        if a.sort == 'B': return self.iff(a, b, hyps, d)
        if a.sort in ('I', 'R'):
            save = self.why
            if a.op == b.op and a.op not in ('poly',) and self.congruent(a, b, hyps, d): return True
            if self.smt(eq(a, b), hyps): return True
            m = self.empty_domains((a, b), hyps)
            if m and self.eq(subst(a, m), subst(b, m), hyps, d + 1): return True
            m = longer_sums((a, b))
            if m and self.eq(subst(a, m), subst(b, m), hyps, d + 1): return True
            return self.fail('%s  /=  %s' % (clip(a), clip(b)))
        if a.op == 'acc' or b.op == 'acc':
            if a.op == 'acc' and b.op == 'acc' and self.eq_acc(a, b, hyps, d): return True
            return self.fail('%s  /=  %s' % (clip(a), clip(b)))
        if isinstance(a.sort, tuple) and a.sort[0] in ('st',) or (isinstance(a.sort, tuple) and a.sort[0] == 'arr' and a.sort[1] <= 16):
            if a.op.startswith('mk:') or b.op.startswith('mk:'):
                x, y = expand(a), expand(b)
                for p, q in zip(x.args, y.args):
                    if not self.eq(p, q, hyps, d + 1): return False
                return True
        if a.sort == 'M':
            if a.op == b.op and self.congruent(a, b, hyps, d): return True
            sa, sb = shape(a), shape(b)
            if sa and sb and sa[:2] == sb[:2] and (a.op in ('mat', 'rt4', 'mset') or b.op in ('mat', 'rt4', 'mset')) and sa[0] * sa[1] <= 36:
                x, y = lib_.entries(a), lib_.entries(b)
                if (x, y) != (a, b):
                    self.why = None
                ok = all(self.eq(p, q, hyps, d + 1) for p, q in zip(x.args[1:], y.args[1:]))
                if ok:
                    self.why = None
                    return True
            return self.fail('%s  /=  %s' % (clip(a), clip(b)))
        if isinstance(a.sort, tuple) and a.sort[0] == 'hp' and 'mput' in (a.op, b.op):
            ba, bb, keys = a, b, []
            while ba.op == 'mput': keys.append(ba.args[1]); ba = ba.args[0]
            while bb.op == 'mput': keys.append(bb.args[1]); bb = bb.args[0]
            if ba is bb:
                return all(self.eq(mget(a, q), mget(b, q), hyps, d + 1) for q in dict.fromkeys(keys))
        save = self.why
        if a.op == b.op and self.congruent(a, b, hyps, d): return True
        c = innermost_cond((a, b)) if d < 16 and self.steps < 1500 else None
        if c is not None and atoms_closed(c):
            self.why = save
            for cc in (c, not_(c)):
                h2 = self.norm_hyps(hyps + (cc,))
                if FALSE in h2 or not self.sat(h2): continue
                if not self.eq(decide(a, c, cc), decide(b, c, cc), h2, d + 1): return False
            return True
        return self.fail('%s  /=  %s   [when %s]' % (clip(a), clip(b), clip(and_(*hyps), 400)))

    def congruent(self, a, b, hyps, d):
        if len(a.args) != len(b.args): return self.fail('%s: %d / %d arguments: %s  /=  %s' % (a.op, len(a.args), len(b.args), [clip(x, 60) for x in a.args], [clip(x, 60) for x in b.args]))
        save = self.why
        for x, y in zip(a.args, b.args):
            if not self.eqarg(x, y, hyps, d + 1):
                return False
        self.why = save
        return True
    def empty_domains(self, ts, hyps):
        """comprehensions over a range known to be empty have their initial value"""
        m, seen = {}, set()
        def go(x):
            if isinstance(x, tuple):
                for y in x: go(y)
            if not isinstance(x, T) or x in seen or len(seen) > 400: return
            seen.add(x)
            if x.op in ('acc', 'lam'):
                if x.op == 'acc' and x.sort in ('I', 'R', 'B') and all(bs and bs[0][1].op == 'range' for bs, g, op, pl in x.args[1]):
                    ds = {bs[0][1] for bs, g, op, pl in x.args[1]}
                    if all(atoms_closed(d) and self.smt(le(d.args[1], d.args[0]), hyps) for d in ds): m[x] = x.args[0]
                return
            go(x.args)
        if hyps: go(ts)
        return m

    def eqarg(self, x, y, hyps, d):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.eqarg(p, q, hyps, d) for p, q in zip(x, y))
        if isinstance(x, T) and isinstance(y, T):
            if x.op == 'lam' and y.op == 'lam':
                if x is y: return True
                k = bvar('k', x.args[0].sort)
                return self.eq(beta(x, k), beta(y, k), hyps, d)
            return self.eq(x, y, hyps, d)
        return x == y

    def iff(self, a, b, hyps, d):
        if a.op == b.op and a.op in ('exists', 'not', 'mhas', 'shas'):
            save = self.why
            if self.congruent(a, b, hyps, d): return True
            self.why = save
        if a.op == 'exists' and b.op == 'exists' and self.eq(a.args[0], b.args[0], hyps, d + 1):
            k = bvar('k', a.args[1].args[0].sort)
            if self.eq(beta(a.args[1], k), beta(b.args[1], k), self.norm_hyps(hyps + (dmember(a.args[0], k),)), d + 1): return True
        f = or_(and_(a, b), and_(not_(a), not_(b)))
        if self.smt(f, hyps): return True
        return self.fail('%s  <=/=>  %s' % (clip(a), clip(b)))

    # comprehension = comprehension
    def eq_acc(self, a, b, hyps, d):
        if not self.eq(a.args[0], b.args[0], hyps, d + 1): return False
        ea, eb = merge_events(a.args[1]), merge_events(b.args[1])
        if len(ea) != len(eb):
            return self.fail('%d updates /= %d updates:\n    %s\n    %s' % (len(ea), len(eb), clip(a), clip(b)))
        COMM = ('add',)
        if all(e[2] in COMM for e in ea + eb):
            rest = list(eb)
            for x in ea:
                for y in rest:
                    save = self.why
                    if self.eq_event(x, y, hyps, d): rest.remove(y); self.why = save; break
                else: return False
            return True
        return all(self.eq_event(x, y, hyps, d) for x, y in zip(ea, eb))

    def eq_event(self, x, y, hyps, d):
        if x == y: return True
        if x[2] != y[2] or len(x[0]) != len(y[0]) or len(x[3]) != len(y[3]):
            return self.fail('update %s /= %s' % (clip_ev(x), clip_ev(y)))
        (bs, g, op, pl) = open_event(x)
        m = {}
        ys, h = [], hyps
        for (b1, d1), (b2, d2) in zip(bs, y[0]):
            d2 = subst(d2, m)
            if not self.eqdom(d1, d2, h, d + 1): return False
            if b1.sort != b2.sort: return self.fail('binder sorts')
            m = dict(m); m[b2] = b1
            h = self.norm_hyps(h + (dmember(d1, b1),))
        g2 = subst(y[1], m)
        if g is not g2 and not self.eq(g, g2, h, d + 1): return False
        h = self.norm_hyps(h + (g,))
        pl2 = subst(y[3], m)
        for p, q in zip(pl, pl2):
            if not self.eqarg(p, q, h, d + 1): return False
        return True

    def eqdom(self, a, b, hyps, d):
        if a is b: return True
        a, b = self.under(a, hyps), self.under(b, hyps)
        if a is b: return True
        if a.op != b.op: return self.fail('domains %s / %s' % (clip(a), clip(b)))
        if a.op == 'range':
            # equal bounds, or both empty
            if all(self.eq(x, y, hyps, d) for x, y in zip(a.args, b.args)): return True
            return False
        if a.op == 'until':
            if not self.eqdom(a.args[0], b.args[0], hyps, d): return False
            k = bvar('k', a.args[1].args[0].sort)
            return self.eq(beta(a.args[1], k), beta(b.args[1], k), self.norm_hyps(hyps + (dmember(a.args[0], k),)), d)
        return self.congruent(a, b, hyps, d)

    # -------------------------------------------------------------------- z3
    def sat(self, hyps):
        """False only if the hypotheses are contradictory"""
        if FALSE in hyps: return False
        if not any(h.op in ('le0', 'lt0', 'eq0', 'or', 'eq') or h.op == 'not' for h in hyps): return True
        key = ('sat', hyps)
        if key in self.cache: return self.cache[key]
        s = z3.Solver(); s.set('timeout', 1000)
        enc = Enc()
        for h in hyps: s.add(enc.b(h))
        for x in enc.axioms(): s.add(x)
        t = time.time(); r = s.check(); self.stats.z3_time += time.time() - t
        self.cache[key] = r != z3.unsat
        return self.cache[key]

    def smt(self, goal, hyps):
        if goal is TRUE: return True
        key = ('smt', goal, hyps)
        if key in self.cache:
            return self.cache[key]
        s = z3.Solver(); s.set('timeout', self.timeout)
        enc = Enc()
        try:
            g = enc.b(goal)
            for h in hyps: s.add(enc.b(h))
            for x in enc.axioms(): s.add(x)
        except z3.Z3Exception as e:
            self.why = 'encoding: %s' % e
            return False
        s.add(z3.Not(g))
        t = time.time(); r = s.check(); self.stats.z3_time += time.time() - t
        if r == z3.unsat:
            self.used_z3 = True
            self.cache[key] = True
            return True
        if r == z3.sat:
            self.model = str(s.model())[:1500]
            self.fail('not valid: %s\n    hypotheses: %s\n    z3 model: %s' % (clip(goal), clip(and_(*hyps)), self.model))
        else: self.fail('z3: unknown for %s' % clip(goal))
        self.cache[key] = False
        return False

def longer_sums(ts):
    """a sum over 0..h+1 next to the same sum over 0..h is that sum and the last term"""
    groups = {}
    for x in set(deep(ts)):
        if x.op == 'acc' and x.sort in ('I', 'R') and len(x.args[1]) == 1:
            bs, g, op, pl = x.args[1][0]
            if op == 'add' and len(bs) == 1 and bs[0][1].op == 'range' and x.args[0].op in ('int', 'real') and bs[0][1].args[0] is I(0):
                b, r = bs[0]
                groups.setdefault((lam2(b, g), lam2(b, pl[0])), []).append((r.args[1], x))
    m = {}
    for k, l in groups.items():
        for h, x in l:
            for h2, y in l:
                c = sub(h, h2)
                if isnum(c) and c.args[0] == 1:
                    bs, g, op, pl = open_event(x.args[1][0])
                    at = {bs[0][0]: h2}
                    m[x] = ite(le0(h), x.args[0], add(y, ite(subst(g, at), subst(pl[0], at), num(0, x.sort))))
    return m

def lam2(b, t):
    k = bvar('k', b.sort)
    return lam(k, subst(t, {b: k}))

def equally_long(h):
    """len(a) = len(b): one of the two stands for both"""
    if h.op != 'eq0' or h.args[0].sort != 'I': return {}
    p = poly(h.args[0])
    ts = sorted([(mono[0], c) for mono, c in p.items() if len(mono) == 1 and mono[0].op == 'vlen' and mono[0].args[0].op in ('sym', 'mget')], key=lambda q: q[0].id)
    if len(p) == 2 and len(ts) == 2 and ts[0][1] == -ts[1][1] and abs(ts[0][1]) == 1: return {ts[1][0]: ts[0][0]}
    return {}
def empty_container(h):
    """the container the hypothesis says to have no elements"""
    if h.op != 'eq0' or h.args[0].op not in ('vlen', 'msize'): return None
    x = h.args[0].args[0]
    return x if x.op != 'acc' and isinstance(x.sort, tuple) and x.sort[0] in ('vec', 'map') else None
def no_elements(x): return tm.vnil(x.sort[1]) if x.sort[0] == 'vec' else tm.mnil(x.sort[1], x.sort[2])

def atoms_closed(c): return True
def decide(t, c, cc):
    """t in the case cc (which is c or its negation)"""
    v = TRUE if cc is c else FALSE
    m = {c: v}
    n = not_(c)
    if n.op not in ('and', 'or'): m[n] = not_(v)
    return subst(t, m)


def innermost_cond(t, seen=None):
    if seen is None: seen = set()
    if isinstance(t, tuple):
        for x in t:
            r = innermost_cond(x, seen)
            if r is not None: return r
        return None
    if not isinstance(t, T) or t in seen or t.op in ('acc', 'lam', 'until', 'exists', 'first', 'last'): return None
    seen.add(t)
    if t.op == 'poly':
        for mono, c in t.args[0]:
            r = innermost_cond(mono, seen)
            if r is not None: return r
        return None
    for a in t.args:
        r = innermost_cond(a, seen)
        if r is not None: return r
    if t.op == 'ite': return t.args[0]
    return None

def merge_events(evs):
    """adjacent events that differ only in complementary guards are joined"""
    return list(evs)

def clip(t, n=700):
    s = shown(t, 20 * n) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + '...'
def clip_ev(e, n=500):
    s = '%s if %s: %s %s' % (e[0], e[1], e[2], e[3])
    return s if len(s) <= n else s[:n] + '...'

class Enc:
    """term -> z3 expression; non-arithmetic operators are uninterpreted functions"""
    def __init__(self): self.m = {}; self.sorts = {}; self.ax = []; self.fn = {}
    def sort(self, s):
        if s in ('I',): return z3.IntSort()
        if s == 'R': return z3.RealSort()
        if s == 'B': return z3.BoolSort()
        k = str(s)
        if k not in self.sorts: self.sorts[k] = z3.DeclareSort('S%d' % len(self.sorts))
        return self.sorts[k]
    def b(self, t): return self.e(t)
    def e(self, t):
        r = self.m.get(t)
        if r is None:
            r = self.enc(t)
            self.m[t] = r
        return r
    def enc(self, t):
        op = t.op
        if op == 'int': return z3.IntVal(t.args[0])
        if op == 'real': return z3.RealVal(str(t.args[0]))
        if op == 'bool': return z3.BoolVal(t.args[0])
        if op == 'poly':
            parts = []
            for mono, c in t.args[0]:
                fs = []
                for x in mono:
                    y = self.e(x)
                    if t.sort == 'R' and y.is_int(): y = z3.ToReal(y)
                    fs.append(y)
                cc = z3.IntVal(int(c)) if t.sort == 'I' and c.denominator == 1 else z3.RealVal(str(c))
                r = cc if not fs else None
                for f in fs: r = f if r is None and c == 1 else (cc * f if r is None else r * f)
                parts.append(r)
            r = parts[0]
            for p in parts[1:]: r = r + p
            return r
        if op == 'not': return z3.Not(self.e(t.args[0]))
        if op == 'and': return z3.And(*[self.e(x) for x in t.args])
        if op == 'or': return z3.Or(*[self.e(x) for x in t.args])
        if op == 'le0': return self.e(t.args[0]) <= 0
        if op == 'lt0': return self.e(t.args[0]) < 0
        if op == 'eq0': return self.e(t.args[0]) == 0
        if op == 'eq':
            return self.e(t.args[0]) == self.e(t.args[1])
        if op == 'ite':
            x, y = self.e(t.args[1]), self.e(t.args[2])
            if t.sort == 'R':
                if x.is_int(): x = z3.ToReal(x)
                if y.is_int(): y = z3.ToReal(y)
            return z3.If(self.e(t.args[0]), x, y)
        if op in ('sym', 'bv'): return z3.Const('c%d' % t.id, self.sort(t.sort))
        if op == 'trunc':
            x = self.e(t.args[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if op == 'floor' and t.sort == 'I': return z3.ToInt(self.e(t.args[0]))
        if op in ('idiv', 'imod'):
            x, y = self.e(t.args[0]), self.e(t.args[1])
            q = z3.If(x >= 0, x / y, -((-x) / y)) if t.args[1].op == 'int' and t.args[1].args[0] > 0 else None
            if q is not None: return q if op == 'idiv' else x - y * q
        if op == 'abs':
            x = self.e(t.args[0])
            return z3.If(x >= 0, x, -x)
        # uninterpreted
        args = []; key = [op, str(t.sort)]
        if op in ('acc', 'lam', 'fold', 'foldproj', 'exists', 'first', 'last', 'count', 'until'):
            r = z3.Const('u%d' % t.id, self.sort(t.sort))
        else:
            def flat(x):
                if isinstance(x, T):
                    args.append(self.e(x)); key.append('T' + str(x.sort))
                elif isinstance(x, tuple):
                    key.append('(')
                    for y in x: flat(y)
                    key.append(')')
                else: key.append(repr(x))
            for x in t.args: flat(x)
            k = '|'.join(key)
            if not args: r = z3.Const('k' + k, self.sort(t.sort))
            else:
                f = self.fn.get(k)
                if f is None:
                    f = self.fn[k] = z3.Function('f%d' % len(self.fn), *([a.sort() for a in args] + [self.sort(t.sort)]))
                r = f(*args)
        if op in tm.NONNEG or op in ('sqrt', 'norm', 'count'): self.ax.append(r >= 0)
        if op == 'sqrt':
            x = self.e(t.args[0]); self.ax.append(z3.Implies(x >= 0, r * r == x))
        if op == 'rinv':
            x = self.e(t.args[0]); self.ax.append(z3.Implies(x != 0, r * x == 1))
        return r
    def axioms(self):
        # sin^2 + cos^2 = 1
        for t in list(self.m):
            if t.op == 'sin':
                c = mkraw('cos', t.args, 'R')
                x, y = self.e(t), self.e(c)
                self.ax.append(x * x + y * y == 1)
        return self.ax

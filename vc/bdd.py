"""Canonical form of a value's case distinctions: a decision diagram over its conditions in a fixed order. Two values that make the same
choices, however the choices are written, get the same term; conditions that make no difference disappear."""
from terms import *

LIMIT_VARS, LIMIT_NODES = 16, 3000
class TooBig(Exception): pass

class Diagram:
    def __init__(s, t, order):
        """t as a diagram; order: condition -> rank"""
        s.order, s.nodes, s.memo, s.conv = order, {}, {}, {}
        s.root = s.of(t)
    def node(s, v, hi, lo):
        if hi is lo: return hi
        k = (v, id(hi), id(lo))
        n = s.nodes.get(k)
        if n is None:
            if len(s.nodes) > LIMIT_NODES: raise TooBig()
            n = s.nodes[k] = (v, hi, lo)
        return n
    def ite(s, c, a, b):
        if c is TRUE: return a
        if c is FALSE: return b
        if a is b: return a
        if a is TRUE and b is FALSE: return c
        k = (id(c), id(a), id(b))
        r = s.memo.get(k)
        if r is None:
            v = min((n[0] for n in (c, a, b) if isinstance(n, tuple)), key=lambda v: s.order[v])
            cof = lambda n, i: n[i] if isinstance(n, tuple) and n[0] is v else n
            r = s.memo[k] = s.node(v, s.ite(cof(c, 1), cof(a, 1), cof(b, 1)), s.ite(cof(c, 2), cof(a, 2), cof(b, 2)))
        return r
    def of(s, t):
        r = s.conv.get(t)
        if r is not None: return r
        if t is TRUE or t is FALSE: r = t
        elif t.op == 'ite': r = s.ite(s.of(t.args[0]), s.of(t.args[1]), s.of(t.args[2]))
        elif t.sort != 'B': r = t
        elif t.op == 'not': r = s.ite(s.of(t.args[0]), FALSE, TRUE)
        elif t.op == 'and':
            r = TRUE
            for x in t.args: r = s.ite(s.of(x), r, FALSE)
        elif t.op == 'or':
            r = FALSE
            for x in t.args: r = s.ite(s.of(x), TRUE, r)
        elif t.op == 'le0': r = s.node(strict(t), FALSE, TRUE)
        else: r = s.node(t, TRUE, FALSE)
        s.conv[t] = r
        return r
    def support(s):
        seen, out, todo = set(), set(), [s.root]
        while todo:
            n = todo.pop()
            if id(n) in seen: continue
            seen.add(id(n))
            if isinstance(n, tuple): out.add(n[0]); todo += n[1:]
            else: out.add(n)
        return out
    def term(s, n=None, memo=None):
        if n is None: n, memo = s.root, {}
        if not isinstance(n, tuple): return n
        r = memo.get(id(n))
        if r is None:
            hi, lo = s.term(n[1], memo), s.term(n[2], memo)
            r = memo[id(n)] = ite(n[0], hi, lo)
        return r

def strict(t):
    """the condition whose negation le0(e) is"""
    n = not_(t)
    return n if n.op == 'lt0' else t

def conditions(t):
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x is TRUE or x is FALSE: continue
        if x.op == 'ite': todo += x.args
        elif x.sort != 'B': continue
        elif x.op in ('not', 'and', 'or'): todo += x.args
        else: out.add(strict(x) if x.op == 'le0' else x)
    return out

def diagram(t, rank):
    """None if t makes no distinction, or too many"""
    cs = conditions(t)
    if not cs or len(cs) > LIMIT_VARS or (t.sort == 'B' and len(cs) == 1): return None
    try: return Diagram(t, {c: i for i, c in enumerate(sorted(cs, key=rank))})
    except TooBig: return None

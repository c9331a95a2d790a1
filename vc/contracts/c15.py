"""C15: connection graphs.  boost's connected_components and dijkstra are trusted
(they are the named functions components(g) and spt(g, source) of the graph given
to them); everything the class does around them is proved."""
from .base import *
import exec as exm
G = 'Graph::'

def find_or_add(k, v):
    """the vertex named v, created when there is none"""
    idx, g = k.f('idx_to_vertex_'), k.f('graph_')
    def add_(k):
        k.setf('graph_', mk(exm.BGRAPH, vpush(sel(g, 0), mkraw('tostr', (v,), 'S')), sel(g, 1)))
        k.put('idx_to_vertex_', v, vlen(sel(g, 0)))
    k.when(mhas(idx, v), None, add_)

@contract(G + 'addVertex', 'C15')
def _(k): find_or_add(k, k.arg(0))

@contract(G + 'addEdge', 'C15')
def _(k):
    u, v, w = k.arg(0), k.arg(1), k.arg(2)
    find_or_add(k, u); find_or_add(k, v)
    g, idx = k.f('graph_'), k.f('idx_to_vertex_')
    k.setf('graph_', mk(exm.BGRAPH, sel(g, 0), vpush(sel(g, 1), mk(exm.BGRAPH[3][1], mget(idx, u), mget(idx, v), w))))

@contract(G + 'clearGraph', 'C15')
def _(k):
    k.setf('graph_', default(exm.BGRAPH)); k.setf('idx_to_vertex_', default(k.sort('Graph', 'idx_to_vertex_')))

@contract(G + 'getGraph', 'C15')
def _(k): k.ret(k.f('graph_'))

def name(g, v): return mkraw('stoi', (vget(sel(g, 0), v),), 'I')

@contract(G + 'connectedComponents', 'C15')
def _(k):
    g = k.f('graph_')
    n = vlen(sel(g, 0))
    comp = mkraw('components', (g,), ('vec', 'I'))
    def members(c): return collect('I', drange(I(0), n), lambda v: name(g, v), lambda v: eq(vget(comp, v), c))
    res = collect(('vec', 'I'), drange(I(0), mkraw('ncomp', (g,), 'I')), members)
    k.ret(ite(eq(n, I(0)), vnil(('vec', 'I')), res))

def depth(p, v): return uf('pred.depth', 'I', p, v)
def chain(k, p, s, t):
    """walk the predecessors from t; empty when the walk gets stuck before s"""
    g = k.f('graph_')
    x = bvar('x', 'I')
    step = lam(x, vget(p, x)); go = lam(x, not_(eq(x, s)))
    n = mkraw('whilelen', (go, step, t), 'I')
    at = lambda i: mkraw('iterate', (step, t, i), 'I')
    dom = drange(I(0), n)
    stuck = exists(dom, lambda i: eq(vget(p, at(i)), at(i)))
    back = vpush(collect('I', dom, lambda i: name(g, at(i))), name(g, s))
    return ite(stuck, vnil('I'), mkraw('vreverse', (back,), ('vec', 'I')))

def walk_ends(k, v, w):
    """predecessors found by Dijkstra form trees: a vertex is its own predecessor
    or one step deeper than it (trusted fact about the given predecessor map)"""
    p = k.arg(0)
    return or_(not_(or_(eq(vget(p, v), v), lt(depth(p, vget(p, v)), depth(p, v)))), lt(depth(p, w), depth(p, v)))

@contract(G + 'getPath', 'C15', rank=walk_ends)
def _(k): k.ret(chain(k, k.arg(0), k.arg(1), k.arg(2)))

@contract(G + 'shortestPathBetween', ['C15', 'C08', 'C09'])
def _(k):
    u, v = k.arg(0), k.arg(1)
    g, idx = k.f('graph_'), k.f('idx_to_vertex_')
    def go(k):
        p = mkraw('spt', (g, mget(idx, u), 'R'), ('vec', 'I'))
        k.ret(chain(k, p, mget(idx, u), mget(idx, v)))
    k.when(and_(mhas(idx, u), mhas(idx, v)), go, lambda k: k.ret(vnil('I')))

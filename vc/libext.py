"""Library models, part 2: random numbers, SVD, matrix rows, output streams and
files, ceres, boost graph.  Everything here is trusted (listed in the evidence)."""
from terms import *
import terms as tm
from exec import *
import exec as exm
import lib as lib_
from lib import Lib

OPAQUE_FREE = {
    'srand': None, 'std::srand': None,
}
def arg(ex, st, v):
    x = ex.val(st, v)
    if isinstance(x, Ptr): x = ex.addr(st, x)
    if isinstance(x, Comma): x = Lib().comma_mat(x)
    return x

tm.SHAPE_RULES['ogetf'] = lambda M: (shape(M.args[0].args[0]) if M.args[0].op == 'svd' and M.args[1] == 'u' else None)

# shape of the matrices kept in containers: columns / arguments whose stored
# matrices all have one shape (assumed of the pre-state, established by the writers)
ELEM = {}
NIL = 'nil'
def elem_shape(c):
    """common shape of the matrices inside a container term"""
    op = c.op
    if op == 'sym': return ELEM.get(c.args[0]) or ELEM.get(c)
    if op in ('mget', 'vget', 'sel', 'asel'): return elem_shape(c.args[0])
    if op in ('vnil', 'mnil', 'dflt'): return NIL
    if op == 'ite':
        return join_(elem_shape(c.args[1]), elem_shape(c.args[2]))
    if op in ('vpush', 'mput', 'mins', 'vset'):
        x = c.args[-1]
        return join_(elem_shape(c.args[0]), shape(x) if x.sort == 'M' else elem_shape(x))
    if op == 'acc':
        r = elem_shape(c.args[0])
        for (bs, g, o, pl) in c.args[1]:
            x = pl[-1]
            if not isinstance(x, T): return None
            if x.sort == 'M': r = join_(r, shape(x))
            elif isinstance(x.sort, tuple): r = join_(r, elem_shape(x))
            else: return None
        return r
    return None
def join_(a, b):
    if a == NIL: return b
    if b == NIL or a == b: return a
    return None
def _elem(M):
    s = elem_shape(M.args[0])
    return None if s == NIL else s
for _o in ('mget', 'vget', 'sel', 'asel'): tm.SHAPE_RULES[_o] = _elem

def rotated(w, x):
    """R(w)*x, the rotation of the rotation vector w applied to x"""
    return [mkraw('rotated', tuple(w) + tuple(x) + (I(i),), 'R') for i in range(3)]

def residual_block(ex, cost, *addrs): return mkraw('resblock', (cost,) + addrs, 'Ref')
def address(cls, f, ref, *keys):
    """storage of a field, or of an element of a map or array field"""
    args = []
    for x in keys: args += ['m', x]
    return mkraw('addr', ('h/%s/%s' % (cls, f), 'h', ref) + tuple(args) + (I(0),), 'Ref')
def solve(ex, st, problem):
    """minimising a problem changes the fields its parameter blocks lie in, in a way the problem and their values determine"""
    roots, seen = set(), set()
    def go(x):
        if isinstance(x, tuple):
            for y in x: go(y)
        if not isinstance(x, T) or x in seen: return
        seen.add(x)
        if x.op == 'addr':
            w = x.args[0].split('/')
            if w[0] != 'h': raise Unsupported('parameter block outside the calibration data')
            roots.add(('h', w[1], w[2]))
        go(x.args)
    go(problem)
    roots = sorted(roots)
    cols = tuple(ex.getroot(st, r) for r in roots)
    for r, c in zip(roots, cols): st.d[r] = mkraw('solved', (problem, cols, '%s::%s' % r[1:]), c.sort)

# ------------------------------------------------ files, streams, charuco boards
FS, NODE = ('O', 'cv::FileStorage'), ('O', 'cv::FileNode')
STREAM = ('st', 'Stream', 'S', 'I', 'I')          # text, field width of the next item, fill character
exm.GHOSTS['files'] = ('vec', 'Ref')              # what is written to the file system, in order
CB, AB = 'cv::aruco::CharucoBoard', 'cv::aruco::Board'
PARAMS = 'cv::aruco::DetectorParameters'
exm.GHOST_FIELDS.update({(AB, 'ids'): ('vec', 'I'), (AB, 'dictionary'): 'Ref', (PARAMS, 'adaptiveThreshConstant'): 'R'})
def threshold(ex, st, params): return ex.read(st, Loc(('h', PARAMS, 'adaptiveThreshConstant'), (('h', params),), 'R'))
def opened(path, mode): return mkraw('fsopen', (path, mode), FS)
def node(v, key): return mkraw('fsnode', (v, key), NODE)
def fsread(v, so): return mkraw('fsread', (v,), so)
def effect(ex, st, what, *args):
    g = ('g', 'files')
    st.d[g] = vpush(ex.getroot(st, g), mkraw('io', (what,) + args, 'Ref'))
def fopen(ex, st, path, mode):
    """opening for writing empties the file"""
    if not (mode.op == 'int' and mode.args[0] == 0): effect(ex, st, 'create', path, mode)
    return opened(path, mode)
CLOSED = mkraw('ctor', ('cv::FileStorage',), FS)
def markers(nx, ny):
    """number of markers on a charuco pattern"""
    return mkraw('charuco_markers', (nx, ny), 'I')
def charuco(ex, st, nx, ny, square, marker, dict_):
    """a new pattern: its markers are numbered from 0"""
    ref = ex.alloc(st, CB)
    import loops
    k = bvar('k', 'I')
    ids = acc(vnil('I'), [(((k, drange(I(0), markers(nx, ny))),), TRUE, 'push', (k,))])
    ex.write(st, Loc(('h', AB, 'ids'), (('h', ref),), ('vec', 'I')), ids)
    ex.write(st, Loc(('h', AB, 'dictionary'), (('h', ref),), 'Ref'), dict_)
    return ref
exm.GHOST_FIELDS[(CB, 'pattern')] = 'Ref'
def boardimage(pattern, ids, size, margin, border):
    """drawing of a charuco pattern"""
    return mkraw('boardimage', (pattern, ids, size, margin, border), 'M')
def padded(x, width, fill):
    if width.op == 'int' and width.args[0] == 0: return x
    return mkraw('padded', (x, width, fill), 'S')

class Lib2(Lib):
    def hidden_inputs(self, ex, st, name, vals):
        # the marker detector reads the content of its parameters
        return [threshold(ex, st, ex.term(st, vals[4]))] if name == 'cv::aruco::detectMarkers' and len(vals) > 4 else []
    def fs_ctor(self, ex, st, vals):
        if not vals: return CLOSED
        args = [ex.term(st, v) for v in vals]
        return fopen(ex, st, args[0], args[1])
    def shift_ext(self, ex, st, a, x, b, name):
        if isinstance(x, T) and x.sort == FS:
            effect(ex, st, 'write', x, ex.deref(st, ex.term(st, b)))
            return a
        if isinstance(x, T) and x.sort == STREAM:
            v = ex.val(st, b)
            if isinstance(v, Py) and v.kind == 'manip':
                if v.what == 'setw': n = mk(STREAM, sel(x, 0), v.x, sel(x, 2))
                elif v.what == 'setfill': n = mk(STREAM, sel(x, 0), sel(x, 1), v.x)
                else: n = x
            else:
                v = ex.term(st, b)
                t = v if v.sort == 'S' else mkraw('tostr', (v,), 'S')
                n = mk(STREAM, lib_.scat(sel(x, 0), padded(t, sel(x, 1), sel(x, 2))), I(0), sel(x, 2))
            ex.write(st, a, n)
            return a
        return None
    def shift_in(self, ex, st, a, b, name, so):
        v = ex.val(st, a)
        if isinstance(v, T) and v.sort == NODE and isinstance(b, Loc):
            x = fsread(v, b.sort)
            if b.sort == 'M': ex.mat_inplace(st, b, x)
            else: ex.write(st, b, x)
            return a
        return super().shift_in(ex, st, a, b, name, so)
    def sub_ext(self, ex, st, a, i):
        v = ex.val(st, a)
        if isinstance(v, T) and v.sort in (FS, NODE): return node(v, ex.term(st, i))
        return None
    def io_method(self, ex, st, name, h, short, o, vals, so):
        if h == 'cv::FileStorage':
            if short == 'open':
                args = [ex.term(st, v) for v in vals]
                v = fopen(ex, st, args[0], args[1])
                ex.write(st, o, v) if o.path else st.d.__setitem__(o.root, v)
                return mkraw('fsok', (v,), 'B')
            v = ex.term(st, o)
            if short == 'isOpened': return mkraw('fsok', (v,), 'B')
            if short == 'release':
                st.d[o.root] = CLOSED
                return None
            if short in ('operator[]', 'root', 'getFirstTopLevelNode'): return node(v, ex.term(st, vals[0]) if vals else S(''))
        if h == 'cv::FileNode':
            v = ex.term(st, o)
            if short == 'operator[]': return node(v, ex.term(st, vals[0]))
            if short in ('operator conv', 'string', 'real') or so in ('I', 'R', 'S'): return fsread(v, so)
            if so == 'B': return mkraw('nodeis', (short, v), 'B')
        if h in ('std::basic_stringstream', 'std::basic_ostringstream'):
            v = ex.term(st, o)
            if short == 'str' and not vals: return sel(v, 0)
            if short == 'str': ex.write(st, o, mk(STREAM, ex.term(st, vals[0]), I(0), sel(v, 2))); return None
        return NotImplemented
    def io_call(self, ex, st, name, vals, so, targs):
        if name in ('std::setw', 'std::setfill'): return Py('manip', what=name[5:], x=ex.term(st, vals[0]))
        if name == 'cv::aruco::CharucoBoard::create':
            a = [ex.term(st, v) for v in vals]
            ref = charuco(ex, st, *a)
            ex.write(st, Loc(('h', CB, 'pattern'), (('h', ref),), 'Ref'), mkraw('pattern', tuple(a), 'Ref'))
            return ref
        if name == PARAMS + '::create':
            ref = ex.alloc(st, PARAMS)
            ex.write(st, Loc(('h', PARAMS, 'adaptiveThreshConstant'), (('h', ref),), 'R'), Rl(7))
            return ref
        if name in ('std::filesystem::exists', 'std::filesystem::is_directory', 'std::filesystem::is_regular_file'):
            return mkraw(name, (ex.term(st, vals[0]),), 'B')
        if name in ('std::filesystem::create_directories', 'std::filesystem::create_directory'):
            p = ex.term(st, vals[0])
            effect(ex, st, 'mkdir', p)
            return mkraw('mkdir', (p,), 'B')
        if name == 'cv::imwrite':
            a = [self.inmat(ex, st, v) if i == 1 else ex.term(st, v) for i, v in enumerate(vals[:2])]
            effect(ex, st, 'image', *a)
            return mkraw('imwrite', tuple(a), 'B')
        return NotImplemented
    def construct_ext(self, ex, st, ty, h, so, vals, kind, sg):
        if h == 'cv::SVD':
            ex.trusted.add('cv::SVD')
            return mkraw('svd', (self.inmat(ex, st, vals[0]),), ('O', 'cv::SVD'))
        if h == 'ceres::Problem' and not vals: return vnil('Ref')
        if h.startswith('ceres::') and h != 'ceres::AutoDiffCostFunction':
            ex.trusted.add(h)
            return mkraw('ctor', (h,) + tuple(ex.term(st, v) for v in vals), so)
        if h == 'ceres::AutoDiffCostFunction':
            # the functor, the number of residuals and the sizes of the parameter blocks
            return mkraw('autodiff', tuple(ty[1:]) + (ex.term(st, vals[0]),), 'Ref')
        if h in ('std::basic_stringstream', 'std::basic_ostringstream'): return mk(STREAM, S(''), I(0), I(32))
        if h == 'boost::property' and len(vals) == 1: return ex.coerce(ex.term(st, vals[0]), so)
        if h == 'boost::property' and not vals: return default(so)
        if h == 'boost::adjacency_list' and not vals: return default(so)
        return None
    def call_ext(self, ex, st, name, vals, so, targs=None, ty=None):
        if name in ('srand', 'std::srand'): return None
        if name == 'ceres::AngleAxisRotatePoint':
            ex.trusted.add('ceres::AngleAxisRotatePoint')
            def el(p, n): return [ex.term(st, ex.index(st, p, I(i))) for i in range(n)]
            w, x, out = [ex.val(st, v) for v in vals]
            x = rotated(el(w, 3), el(x, 3))
            for i in range(3): ex.write(st, ex.index(st, out, I(i)), x[i])
            return None
        if name == 'ceres::Solve':
            ex.trusted.add('ceres::Solve')
            l = vals[1].loc if isinstance(vals[1], Py) and vals[1].kind == 'addrloc' else None
            if l is None: raise Unsupported('ceres::Solve on an unknown problem')
            solve(ex, st, ex.term(st, l))
            return None
        r = self.io_call(ex, st, name, vals, so, targs)
        if r is not NotImplemented: return r
        if name in ('time', 'std::time'): return fresh('now', 'I')
        if name.startswith('boost::'):
            r = self.graph(ex, st, name[7:], vals, so)
            if r is not NotImplemented: return r
        return super().call_ext(ex, st, name, vals, so, targs, ty)
    # ------------------------------------------------ boost::adjacency_list
    def graph(self, ex, st, f, vals, so):
        gs = [v for v in vals if isinstance(v, Loc) and v.sort == BGRAPH or isinstance(v, T) and v.sort == BGRAPH]
        if gs: loc = gs[0]; g = ex.term(st, loc)
        if f == 'add_vertex':
            p = vals[0] if len(vals) == 2 else None
            n = vlen(sel(g, 0))
            ex.write(st, loc, mk(BGRAPH, vpush(sel(g, 0), S('') if p is None else ex.coerce(ex.term(st, p), 'S')), sel(g, 1)))
            return n
        if f == 'add_edge':
            w = ex.coerce(ex.term(st, vals[2]), 'R') if len(vals) == 4 else num(0, 'R')
            e = mk(BGRAPH[3][1], ex.term(st, vals[0]), ex.term(st, vals[1]), w)
            ex.write(st, loc, mk(BGRAPH, sel(g, 0), vpush(sel(g, 1), e)))
            return Py('newedge')
        if f == 'num_vertices': return vlen(sel(g, 0))
        if f == 'num_edges': return vlen(sel(g, 1))
        if f == 'vertex': return ex.term(st, vals[0])
        if f == 'get':
            if len(vals) == 3: return vget(sel(g, 0), ex.term(st, vals[2]))
            return Py('bmap')
        if f == 'make_iterator_property_map':
            return Py('propmap', it=vals[0] if isinstance(vals[0], (Iter, Ptr)) else ex.val(st, vals[0]))
        if f in ('predecessor_map', 'distance_map'): return Py('params', d={f: ex.val(st, vals[0])})
        if f == 'connected_components':
            ex.trusted.add('boost::connected_components')
            self.fill(ex, st, vals[1], lambda es: mkraw('components', (g,), ('vec', es)), vlen(sel(g, 0)))
            return mkraw('ncomp', (g,), 'I')
        if f == 'dijkstra_shortest_paths':
            ex.trusted.add('boost::dijkstra_shortest_paths')
            s = ex.term(st, vals[1]); d = ex.val(st, vals[2]).d
            if set(d) != {'predecessor_map', 'distance_map'}: raise Unsupported('Dijkstra without predecessor and distance map')
            n = vlen(sel(g, 0))
            dl = d['distance_map'].it.loc
            es = dl.sort[1]           # the type the path lengths are summed in decides the result
            self.fill(ex, st, d['predecessor_map'].it, lambda t: mkraw('spt', (g, s, es), ('vec', t)), n)
            self.fill(ex, st, d['distance_map'].it, lambda t: mkraw('sptdist', (g, s, es), ('vec', t)), n)
            return None
        return NotImplemented
    def fill(self, ex, st, it, val, n):
        """the whole vector an iterator or pointer to its first element belongs to is written"""
        it = ex.val(st, it) if not isinstance(it, (Iter, Ptr)) else it
        loc, pos = (it.loc, it.pos) if isinstance(it, Iter) else (it.loc, it.off)
        if isinstance(it, Ptr) and loc.path and loc.path[-1][0] == 'v':
            pos = add(loc.path[-1][1], pos); loc = Loc(loc.root, loc.path[:-1], None)
            v = ex.read(st, loc)
            loc = Loc(loc.root, loc.path, v.sort)
        if pos is not I(0): raise Unsupported('graph algorithm output not at the start of a vector')
        v = ex.read(st, loc)
        ex.checks.append(('the output vector has one element per vertex', st.pc, eq(vlen(v), n)))
        ex.write(st, loc, val(loc.sort[1]))
    def method_ext(self, ex, st, name, h, short, o, vals, so, targs, oty, ty):
        if h == 'ceres::Problem':
            v = ex.term(st, o)
            if short == 'AddResidualBlock':
                ps = [ex.val(st, x) for x in vals]
                if not all(isinstance(p, Ptr) for p in ps[2:]): raise Unsupported('parameter blocks of a residual')
                ex.write(st, o, vpush(v, residual_block(ex, ex.term(st, ps[0]), *[ex.addr(st, p) for p in ps[2:]])))
                return mkraw('blockid', (vlen(v),), 'Ref')
            p = ex.val(st, vals[0]) if vals else None
            if short in ('SetParameterBlockConstant', 'SetParameterBlockVariable', 'AddParameterBlock', 'SetParameterLowerBound', 'SetParameterUpperBound', 'SetParameterization', 'SetManifold') and isinstance(p, Ptr):
                rest = tuple(ex.term(st, x) for x in vals[1:])
                ex.write(st, o, vpush(v, mkraw('constraint', (short, ex.addr(st, p)) + rest, 'Ref')))
                return None
            return NotImplemented
        if h == CB and short in ('draw', 'generateImage'):
            ref = ex.term(st, o)
            a = [ex.term(st, v) for i, v in enumerate(vals) if i != 1]
            get = lambda c, f, so: ex.read(st, Loc(('h', c, f), (('h', ref),), so))
            ex.mat_inplace(st, vals[1], boardimage(get(CB, 'pattern', 'Ref'), get(AB, 'ids', ('vec', 'I')), *a))
            return None
        if h == 'cv::RNG' and short == 'uniform': return mkraw('draw', (ex.rnd('rng'),) + tuple(ex.term(st, x) for x in vals), so)
        r = self.io_method(ex, st, name, h, short, o, vals, so)
        if r is not NotImplemented: return r
        if h == 'boost::adjacency_list' and short == 'clear':
            ex.write(st, o, default(BGRAPH)); return None
        v = ex.val(st, o) if not isinstance(o, Py) else o
        if isinstance(v, Py) and v.kind == 'params' and short in ('predecessor_map', 'distance_map'):
            return Py('params', d={**v.d, short: ex.val(st, vals[0])})
        return NotImplemented

"""Function-by-function verification of the contracts against the current AST."""
import time, traceback
from terms import *
import terms as tm
from exec import *
import exec as exm
import lib as lib_, libext, loops, spec
from spec import K, REG
from prove import Prover, clip
from front import freeze

class Obl:
    __slots__ = ('fn', 'name', 'ok', 'how', 'line')
    def __init__(self, fn, name, ok, how, line=None): self.fn, self.name, self.ok, self.how, self.line = fn, name, ok, how, line

class Result:
    def __init__(self, con):
        self.con = con; self.obls = []; self.status = 'proved'; self.reason = None; self.time = 0.0
        self.used = set(); self.trusted = set(); self.inlined = set(); self.loops = 0; self.F = None; self.assume = set(); self.trusted_inv = None

def verify(prog, con, prover, unroll=None):
    R = Result(con)
    t0 = time.time()
    try:
        _verify(prog, con, prover, R)
    except Unsupported as e:
        R.status = 'unsupported'; R.reason = str(e)
    except (OverflowError, RecursionError) as e:
        R.status = 'unsupported'; R.reason = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        R.status = 'unsupported'
        R.reason = 'engine error %s: %s @ %s' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip())
    if R.status == 'proved' and not all(o.ok for o in R.obls): R.status = 'failed'
    R.time = time.time() - t0
    return R

def setup(ex, prog, con, F):
    st = State()
    this = mkraw('this', (), 'Ref') if F['method'] or F['ctor'] else None
    vals = []
    outs = []
    for i, (pid, pname, ty) in enumerate(F['params']):
        ty = freeze(ty)
        base = strip_ref(ty)
        key = ('v', 'arg', i)
        if i in con.arrays:
            n, es = con.arrays[i]
            so = ('arr', n, es)
            st.d[key] = sym('arg%d:%s' % (i, con.key.split('::')[-1]), so)
            vals.append(Ptr(Loc(key, (), so), I(0)))
            outs.append((i, key))
            continue
        if is_object_type(base):
            vals.append(Obj(sym('arg%d:%s' % (i, con.key.split('::')[-1]), 'Ref'), base)); continue
        so = sort_of(ty)
        x = sym('arg%d:%s' % (i, con.key.split('::')[-1]), so)
        if i in con.inputs: x = con.inputs[i]
        if i in con.shapes and x.op == 'sym' and so != 'M': libext.ELEM[x] = con.shapes[i]
        if so == 'M':
            if i in con.shapes and x.op == 'sym': tm.SHAPES[x] = con.shapes[i]
            if con.shapes.get(i) and con.shapes[i][0] * con.shapes[i][1] == 0: x = default('M')
            x = ex.newbuf(st, x)
        if is_ref(ty):
            st.d[key] = x
            vals.append(Loc(key, (), so))
            outs.append((i, key))
        else:
            if so == 'M':
                st.d[key] = x
                vals.append(Loc(key, (), so))
            else: vals.append(x)
    return st, this, vals, outs

def _verify(prog, con, prover, R):
    exm.set_records(prog.records)
    F = None
    for f in prog.byname.get(con.name, []):
        if con.nargs is None or len(f['params']) == con.nargs:
            if con.sig is None or con.sig(f): F = f; break
    if F is None:
        raise Unsupported('function %s not found in the current tree' % con.name)
    R.F = F
    ex = Executor(prog, REG, libext.Lib2())
    ex.top, ex.topF = con.name, F
    if con.note and 'inline' in con.note: pass
    Executor._buf = 0
    st, this, vals, outs = setup(ex, prog, con, F)
    exm.CURRENT = ex
    hyps0 = []
    if con.pre:
        k = K(ex, st.clone(), this, vals, con, F)
        g = con.pre(k)
        if g is not None and g is not TRUE: hyps0 = [g]; st.assume(g)
    if con.inv:
        g = con.inv[1](K(ex, st.clone(), this, vals, con, F)); hyps0.append(g); st.assume(g)
        R.trusted_inv = con.inv[0]
    given = con.given([a if isinstance(a, T) else st.d.get(('v', 'arg', i)) for i, a in enumerate(vals)]) if callable(con.given) else con.given
    for g in given: st.assume(g)
    init = st.clone()
    # ------------------------------------------------ the real body
    if con.loop_hook: ex.loop_hook = con.loop_hook
    ex.bounds = con.bounds if isinstance(con.bounds, bool) else [ex.deref(st, st.d.get(('v', 'arg', i)) or vals[i]) for i in con.bounds]; ex.trace = con.trace; ex.divide = con.divide; ex.steps = con.steps
    if con.monitor:
        import threads
        ex.monitor = threads.Monitor(con.monitor)
        ex.monitor.start(st)
    if con.rank: ex.rank = lambda a, b: con.rank(K(ex, init.clone(), this, vals, con, F), a, b)
    if F['ctor']:
        S1 = st
        ex.construct(S1, this, con.cls, vals)
        v1 = None
    else:
        fr = ex.new_frame(this, F)
        ex.bind_params(st, fr, F, vals)
        ex.stack.append(fr)
        o = ex.stmt(st, fr, F['body'])
        S1, v1 = ex.join_returns(o, fr)
        if isinstance(v1, Loc): v1 = ex.read(S1, v1)
        if isinstance(v1, Obj): v1 = v1.ref
        if isinstance(v1, T): v1 = ex.deref(S1, v1)
    R.loops = ex.nloops; R.used = set(ex.used); R.trusted = set(ex.trusted) | ({'class invariant: ' + R.trusted_inv} if R.trusted_inv else set()); R.inlined = set(ex.inlined)
    checks = ex.monitor.resolve(ex, S1, ex.checks, init) if ex.monitor is not None else list(ex.checks)
    ex.monitor = None
    if con.monitor == 'task':      # the effect is the subject of the function's other contract
        for name, pc, goal in checks: R.obls.append(Obl(con.key, name, *prover.valid(goal, pc)))
        return
    # ------------------------------------------------ the contract
    ex2 = Executor(prog, REG, libext.Lib2())
    ex2.top, ex2.topF = con.name, F
    ex2.nframe = 1000; ex2.steps = con.steps
    S2 = init.clone()
    if ex.witness is not None: ex2.witness = ex.witness
    k = K(ex2, S2, this, vals, con, F)
    con.fn(k)
    S2 = k.st; v2 = k.result
    if isinstance(v2, T): v2 = ex2.deref(S2, v2)
    hyps = [h for h in S1.pc]
    fn = con.key
    if not prover.sat(prover.norm_hyps(hyps)):
        R.obls.append(Obl(fn, 'precondition and path are reachable', False, 'hypotheses are contradictory'))
        return
    for name, pc, goal in checks:
        if goal is None: R.assume.add(name); continue
        ok, how = prover.valid(goal, pc)
        R.obls.append(Obl(fn, name, ok, how))
    if con.post:
        k.st = S1
        k0 = K(ex, init.clone(), this, vals, con, F); k0.after = K(ex, S1.clone(), this, vals, con, F)
        for nm, g in con.post(k0, v1):
            ok, how = prover.valid(g, hyps)
            R.obls.append(Obl(fn, nm, ok, how))
        v2 = None; v1 = None
    if con.after:
        n0 = len(ex.checks)
        for nm, x, y in con.after(ex, S1, K(ex, init.clone(), this, vals, con, F), v1):
            ok, how = prover.equal(x, y, hyps)
            R.obls.append(Obl(fn, nm, ok, how))
        R.trusted |= ex.trusted; R.inlined |= ex.inlined
        v2 = None; v1 = None
    # return value
    if v2 is not None or (v1 is not None and sort_of(F['ret']) != ('O', 'void') and v2 is not None):
        if v1 is None: R.obls.append(Obl(fn, 'returned value', False, 'the function returns nothing'))
        else:
            if not isinstance(v1, T): raise Unsupported('returns %s' % type(v1).__name__)
            if v1.sort != v2.sort: v2 = ex2.coerce(v2, v1.sort)
            if __import__("os").environ.get("DBG"): print('returned', "\n  BODY", v1, "\n  SPEC", v2)
            ok, how = prover.equal(v1, v2, hyps)
            R.obls.append(Obl(fn, 'returned value', ok, how))
    elif v1 is not None and isinstance(v1, T) and not con.note == 'ret-free':
        raise Unsupported('contract of %s does not fix the returned value' % fn)
    # reference arguments and by-reference arrays
    for i, key in outs:
        if i in con.free or i in con.partial: continue
        x1, x2 = st_val(ex, S1, key), st_val(ex2, S2, key)
        x0 = st_val(ex, init, key)
        if x1 is x0 and x2 is x0: continue
        ok, how = prover.equal(x1, x2, hyps)
        R.obls.append(Obl(fn, 'reference argument %d' % i, ok, how))
    # heap
    keys = {q for q in list(S1.d) + list(S2.d) if q[0] in ('h', 'g')}
    for q in sorted(keys, key=str):
        if q[0] == 'h' and q[1] in con.private: continue
        x1, x2 = ex.getroot(S1, q), ex2.getroot(S2, q)
        x0 = ex.getroot(init, q)
        if __import__("os").environ.get("DBG"): print(q, "\n  BODY", x1, "\n  SPEC", x2)
        nm = '%s::%s' % (q[1].split('::')[-1], q[2]) if q[0] == 'h' else 'ghost %s' % q[1]
        if x1 is x0 and x2 is x0: continue
        if F['ctor'] and x2.op == 'mput' and x2.args[2].op == 'undef':
            x1 = tm.mput(x1, x2.args[1], x2.args[2])       # a field the specification leaves undefined
        if x2 is x0: nm = 'frame: %s unchanged' % nm
        else: nm = 'final value of ' + nm
        ok, how = prover.equal(x1, x2, hyps)
        R.obls.append(Obl(fn, nm, ok, how))
    R.obls.append(Obl(fn, 'frame: no other location is written', True, 'kernel'))

def st_val(ex, S, key):
    v = S.d.get(key)
    return ex.deref(S, v) if isinstance(v, T) else v

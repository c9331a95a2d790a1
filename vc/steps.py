"""Calls whose effect is left opaque.  Where a contract says which functions are applied to what, and in which order, the effect of each of
them is some function of the columns its own contract reads, the columns it writes and its arguments; the columns it writes are the only ones
that change.  Which columns these are is computed from the callee's contract (proved by itself), by applying it to an arbitrary state."""
from terms import *
import exec as exm
from exec import *

_foot = {}
def footprint(ex, con, F):
    """(columns read or written, columns written, arguments set) by a function under contract"""
    r = _foot.get(con.key)
    if r is None:
        import verify, spec, libext
        e = Executor(ex.prog, ex.contracts, libext.Lib2())
        e.top, e.topF, e.reads, e.steps = con.name, F, set(), con.steps
        st, this, vals, outs = verify.setup(e, ex.prog, con, F)
        for i, g in enumerate(con.given([a if isinstance(a, T) else st.d.get(('v', 'arg', i)) for i, a in enumerate(vals)]) if callable(con.given) else con.given): st.assume(g)
        before = {key: e.deref(st, st.d[key]) for i, key in outs}
        con.spec(spec.K(e, st, this, vals, con, F))
        sets = tuple(i for i, key in outs if e.deref(st, st.d.get(key)) is not before[key])
        w = {k for k in st.d if k[0] in ('h', 'g') and st.d[k] is not e_root(e, k)}
        r = _foot[con.key] = (tuple(sorted(e.reads | w)), tuple(sorted(w)), sets)
    return r
def e_root(e, k):
    r = exm.State()
    return e.getroot(r, k)

def step(ex, st, con, this, vals, F):
    import spec
    every, written, sets = footprint(ex, con, F)
    if ex.monitor is not None:
        for n in exm.static_variables(ex.prog, F): ex.monitor.static(ex, st, n)
        for c in every: ex.monitor.access(ex, st, c, c in written)
    args = []
    for v in ([this] if this is not None else []) + list(vals):
        v = v.ref if isinstance(v, Obj) else ex.val(st, v)
        if not isinstance(v, T): raise Unsupported('argument of an opaque call')
        args.append(ex.deref(st, v))
    if con.pre:
        g = con.pre(spec.K(ex, st.clone(), this, vals, con, F))
        if g is not None and g is not TRUE: ex.checks.append(('precondition of %s' % con.name, st.pc, g))
    if con.inv: ex.trusted.add('class invariant: ' + con.inv[0])
    ex.trusted.add('columns used by the step %s, from its contract (proved under %s)' % (con.name, ', '.join(con.props)))
    E = mkraw('effect', (con.key, tuple(args), tuple(ex.getroot(st, c) for c in every)), 'C')
    for c in written: st.d[c] = mkraw('effcol', (E, '/'.join(c)), ex.getroot(st, c).sort)
    for i in sets: 
        v = vals[i]
        x = mkraw('effcol', (E, i), v.sort if isinstance(v, Loc) else 'M')
        spec.K(ex, st, this, vals, con, F).setarg(i, x)
    so = sort_of(F['ret'])
    return None if so == ('O', 'void') else mkraw('effcol', (E, 'value'), so)

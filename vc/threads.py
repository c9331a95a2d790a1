"""Threads.  Two modes of executing a function under contract, chosen by the contract's option `monitor`:

task  the body of a task that runs at the same time as other tasks of the same kind.  Obligations: every access that changes a shared
      column (a member of any object, or a ghost) happens while the one lock is held, and no column that is changed that way is read while
      it is not held.  The accesses outside the lock then commute with everything the other tasks do, and what happens between taking the lock
      and releasing it is not interleaved with other such sections: every schedule has the effect of the sections one after the other.
main  a function that hands tasks to a thread pool.  A task is a function under contract with its arguments copied at the moment it is handed
      over; it is executed as an opaque step (steps.py) at that point.  Obligations: while tasks may be running, the function itself touches
      no column that the tasks change and changes no column that they use, and no task may be left when it returns."""
from terms import *
import exec as exm
from exec import *

HELD = ('v', 'lk', 0)
PEND = ('v', 'pend', 0)

class Monitor:
    def __init__(self, mode):
        self.mode = mode
        self.off = self.intask = self.nlocks = 0
        self.mutexes = []
        self.tasks = {}          # columns used / changed by the tasks
    def start(self, st):
        st.d[HELD] = FALSE; st.d[PEND] = FALSE
    # ------------------------------------------------------------ accesses
    def quiet(self, st):
        if self.mode == 'task': return st.d.get(HELD, FALSE)
        return not_(st.d.get(PEND, TRUE))
    def access(self, ex, st, root, write):
        if self.off or root[0] not in ('h', 'g'): return
        if self.intask:
            self.tasks[root] = self.tasks.get(root, False) or write
            return
        c = (('#w' if write else '#r', root), st.pc, self.quiet(st))
        if c not in ex.checks[-40:]: ex.checks.append(c)
    def contract(self, ex, st, con, F):
        """a call of a function under contract touches what its contract mentions"""
        if self.off: return
        for n in static_variables(ex.prog, F): self.static(ex, st, n)
        import steps
        every, written, sets = steps.footprint(ex, con, F)
        for c in every:
            if c not in written: self.access(ex, st, c, False)
        for c in written: self.access(ex, st, c, True)
    def static(self, ex, st, name):
        if self.mode == 'task' and not self.off: ex.checks.append(('the variable %s, which all calls share, is used only while the lock is held' % name, st.pc, self.quiet(st)))
    # --------------------------------------------------------------- locks
    def mutex(self, ex, st, m):
        """is this the one lock that all tasks share?"""
        loc = m if isinstance(m, Loc) else None
        if isinstance(m, Ptr): loc = m.loc
        if loc is None or loc.root[0] != 'h' or len(loc.path) != 1 or not isinstance(loc.path[0][1], T) or loc.path[0][1].op != 'this': return False
        if (loc.root, loc.path) not in self.mutexes: self.mutexes.append((loc.root, loc.path))
        return True
    def lock(self, ex, st, vals):
        """construction of a lock object"""
        self.nlocks += 1
        ms = [v for v in vals if isinstance(v, (Loc, Ptr))]
        tags = len(vals) - len(ms)
        shared = [m for m in ms if self.mutex(ex, st, m)]
        if shared and not tags: st.d[HELD] = TRUE
        return shared
    # ------------------------------------------------------------- the end
    def resolve(self, ex, st, checks, before):
        out = []
        col = lambda r: '%s::%s' % (r[1].split('::')[-1], r[2]) if r[0] == 'h' else 'ghost %s' % r[1]
        W = {c[0][1] for c in checks if isinstance(c[0], tuple) and c[0][0] == '#w'}
        for name, pc, goal in checks:
            if not isinstance(name, tuple): out.append((name, pc, goal)); continue
            kind, root = name
            if self.mode == 'task':
                if kind == '#w': out.append(('%s is changed only while the lock is held' % col(root), pc, goal))
                elif root in W: out.append(('%s, which tasks change, is read only while the lock is held' % col(root), pc, goal))
            elif root in self.tasks and (kind == '#w' or self.tasks[root]):
                out.append(('%s is not touched while tasks that use it may run' % col(root), pc, goal))
        if self.mode == 'task':
            for q in st.d:
                if q[0] in ('h', 'g') and q not in W and st.d[q] is not ex.getroot(before, q):
                    raise Unsupported('change of %s not seen by the monitor' % (q,))
            if len(self.mutexes) > 1: out.append(('all sections use the same lock', st.pc, FALSE))
        else:
            out.append(('no task is left when the function returns', st.pc, not_(st.d.get(PEND, TRUE))))
        seen, res = set(), []
        for c in out:
            if c not in seen: seen.add(c); res.append(c)
        return res

def bind(ex, st, vals):
    """std::bind: the arguments are copied now"""
    f = ex.val(st, vals[0]) if isinstance(vals[0], Loc) else vals[0]
    if isinstance(f, Lam) and len(vals) == 1: return f
    if not isinstance(f, Fn): raise Unsupported('std::bind of %s' % type(f).__name__)
    args = []
    for v in vals[1:]:
        if isinstance(v, Py) and v.kind == 'refto': args.append(v.loc); continue
        v = ex.val(st, v)
        args.append(v if isinstance(v, Obj) else ex.deref(st, v) if isinstance(v, T) else v)
    return Py('bind', name=f.name, args=args)

def outlives(ex, st, loc):
    """a variable a task refers to: a parameter, or a local declared in the function itself, outside of its loops"""
    if loc.root[0] != 'v': return True
    fr = ex.stack[0]
    ids = {p[0] for p in fr.fn['params']}
    if loc.root[1] == 'arg': return True
    for s in fr.fn['body'][2]:
        if s[0] == 'decl': ids |= {d[1] for d in s[2] if d[0] == 'vardecl'}
    return loc.root[1] == fr.n and loc.root[2] in ids

def post(ex, st, pool, v):
    """hands a task to a pool: boost::asio::post(pool, task)"""
    m = ex.monitor
    if m is None: raise Unsupported('tasks outside a contract about tasks')
    ex.trusted.add('boost::asio::thread_pool runs every posted task once; join waits for all')
    v = ex.val(st, v) if isinstance(v, Loc) else v
    name = 'what a task refers to outlives it'
    if isinstance(v, Lam):
        for c in v.node[1]:
            if c[0] == 'this' or not c[1]: continue
            loc = v.inits[c[0]] if c[0] in v.inits else Loc(('v', v.frame.n, c[0]), (), None)
            if not isinstance(loc, Loc): continue
            ex.checks.append((name, st.pc, TRUE if outlives(ex, st, loc) else FALSE))
        m.intask += 1
        try: ex.call_lambda(st, v, [])
        finally: m.intask -= 1
    elif isinstance(v, Py) and v.kind == 'bind':
        vals = v.args
        for a in vals:
            if isinstance(a, Loc): ex.checks.append((name, st.pc, TRUE if outlives(ex, st, a) else FALSE))
        m.intask += 1
        try: call(ex, st, v.name, vals)
        finally: m.intask -= 1
    else: raise Unsupported('task of kind %s' % type(v).__name__)
    st.d[PEND] = TRUE

def call(ex, st, name, vals):
    F = ex.prog.find(name, None, len(vals)) or ex.prog.find(name, None, len(vals) - 1)
    if F is None: raise Unsupported('task %s' % name)
    this = None
    if F['method']:
        this, vals = ex.val(st, vals[0]), vals[1:]
        if isinstance(this, Obj): this = this.ref
    r = ex.call_function(st, name, None, this, vals)
    if r is NotImplemented: raise Unsupported('task %s' % name)

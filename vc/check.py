"""check.py ID [quick|thorough]: decides one property on the current /repo tree.

1. the clang front end extracts the functions of /repo (all library and app sources);
2. every contract of the property, and the contract of every function those bodies
   call, is verified function by function;
3. the replay program of the property runs the real code against the executable
   form of the same contracts: it looks for the failing input of a failed
   obligation, and is the bounded stand-in of the functions listed as such.
"""
import sys, os, glob, json, time, shutil, tempfile, threading, subprocess, signal, importlib, re, atexit
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
import front
VERIF, REPO = front.VERIF, front.REPO

ID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
TASK_LIMIT = 240 if TIER == 'quick' else 420
scratch = tempfile.mkdtemp(prefix='mcv-')
atexit.register(lambda: shutil.rmtree(scratch, ignore_errors=True))
signal.signal(signal.SIGTERM, lambda *a: sys.exit(1))
EV = VERIF + '/evidence'
os.makedirs(EV + '/replay', exist_ok=True)
for f in glob.glob(EV + '/replay/%s-*' % ID): os.remove(f)

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------- replay program
class Replay(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.has = os.path.exists('%s/replay/%s.cpp' % (VERIF, ID))
        self.ok, self.out = False, ''
    def run(self):
        if not self.has: return
        p = subprocess.run([VERIF + '/replay/build.sh', scratch + '/replay', ID], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.ok, self.out = p.returncode == 0, p.stdout[-4000:]

def run_case(case, scale, seed, limit):
    """(status, iterations, message): status ok / fail / crash / hang"""
    d = tempfile.mkdtemp(dir=scratch)
    lf = d + '/log'
    env = dict(os.environ, REPLAY_TMP=d, OMP_NUM_THREADS='1')
    p = subprocess.Popen([scratch + '/replay/' + ID, lf, str(seed), str(scale), case], stdout=subprocess.DEVNULL,
                         stderr=open(d + '/err', 'w'), env=env, start_new_session=True, cwd=d)
    hang = False
    try: p.wait(limit)
    except subprocess.TimeoutExpired:
        hang = True
        os.killpg(p.pid, signal.SIGKILL); p.wait()
    txt = open(lf, errors='replace').read() if os.path.exists(lf) else ''
    err = open(d + '/err', errors='replace').read()
    shutil.rmtree(d, ignore_errors=True)
    last = 0
    for l in txt.splitlines():
        w = l.split(' ', 3)
        if w[0] == 'RUN': last = int(w[2])
        if w[0] == 'FAIL': return 'fail', int(w[2]), w[3]
        if w[0] == 'DONE': last = int(w[2])
    if hang: return 'hang', last, 'no result after %d s (iteration %d)' % (limit, last)
    if 'END' not in txt:
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|terminate called[^\n]*|Assertion[^\n]*failed[^\n]*|[^\n]*runtime error[^\n]*)', err)
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (McCalib::[^\n]*)', err)
        return 'crash', last, 'the program ends abnormally (code %s): %s%s' % (p.returncode, m.group(1) if m else err.strip()[-300:].replace('\n', ' '),
            ' in ' + fr[0][:160] if fr else '')
    return 'ok', last, ''

RACES = {'C20': ['threads']}     # cases run under ThreadSanitizer when an obligation fails
def races():
    """data races the library's own code takes part in, in a run of the real code"""
    d = scratch + '/replay-tsan'
    if subprocess.run([VERIF + '/replay/build.sh', d, ID], env=dict(os.environ, VERIF_SAN='thread'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return {}
    r = {}
    for c in RACES[ID]:
        t = tempfile.mkdtemp(dir=scratch)
        with open(t + '/err', 'w') as e:
            try: subprocess.run([d + '/' + ID, t + '/log', str(SEED), '1', c], stdout=subprocess.DEVNULL, stderr=e, timeout=200, cwd=t,
                                env=dict(os.environ, REPLAY_TMP=t, OMP_NUM_THREADS='1', TSAN_OPTIONS='ignore_noninstrumented_modules=1 exitcode=0'))
            except subprocess.TimeoutExpired: pass
        for w in open(t + '/err', errors='replace').read().split('WARNING: ThreadSanitizer: ')[1:]:
            fr = re.findall(r'#\d+ (McCalib::[A-Za-z_:0-9]+)', w)
            if w.startswith('data race') and fr:
                r[c] = ('race', 0, 'ThreadSanitizer: data race in ' + ', '.join(sorted(set(fr)))[:300])
                break
        shutil.rmtree(t, ignore_errors=True)
    return r

# ------------------------------------------------------------------ verifier
def worker(conn, idx):
    import verify
    from prove import Prover
    pr = Prover(8000 if TIER == 'quick' else 20000)
    R = verify.verify(PROG, CONS[idx], pr)
    F = R.F
    conn.send(dict(idx=idx, key=R.con.key, kind=R.con.kind, status=R.status, reason=R.reason, time=R.time,
                   obls=[(o.name, o.ok, str(o.how)[:6000]) for o in R.obls], used=sorted(R.used), trusted=sorted(map(str, R.trusted)),
                   inlined=sorted(map(str, R.inlined)), loops=R.loops, assume=sorted(map(str, R.assume)), line=(F or {}).get('line'),
                   stats=vars(pr.stats)))
    conn.close()

def verify_all(idxs):
    """one process per contract, at most 8 at a time"""
    todo, run, res = list(idxs), [], {}
    while todo or run:
        while todo and len(run) < 8:
            i = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(b, i)); p.start(); b.close()
            run.append((i, p, a, time.time()))
        keep = []
        for i, p, a, t in run:
            if a.poll(0.01):
                try: res[i] = a.recv()
                except EOFError: res[i] = None
                p.join(5)
            elif not p.is_alive() and not a.poll(0): res[i] = None
            elif time.time() - t > TASK_LIMIT:
                p.kill(); p.join(); res[i] = dict(idx=i, key=CONS[i].key, kind=CONS[i].kind, status='unsupported', reason='verification exceeds %d s' % TASK_LIMIT,
                    time=time.time() - t, obls=[], used=[], trusted=[], inlined=[], loops=0, assume=[], line=None, stats={})
            else: keep.append((i, p, a, t)); continue
            if res.get(i) is None:
                res[i] = dict(idx=i, key=CONS[i].key, kind=CONS[i].kind, status='unsupported', reason='the verifier ended abnormally', time=0, obls=[],
                    used=[], trusted=[], inlined=[], loops=0, assume=[], line=None, stats={})
        run = keep
        if run: time.sleep(0.01)
    return res

# --------------------------------------------------------------- known findings
def known():
    r = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            m = re.match(r'property=(\S+) (case|obligation)=(\S+) match=/(.*)/ (.*)', l)
            if m and m.group(1) == ID: r.append(m.groups()[1:])
    return r

def main():
    global PROG, CONS
    rep = Replay(); rep.start()
    files = sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + '/McCalib/src/*.cpp') + glob.glob(REPO + '/apps/*/src/*.cpp'))
    extra = [(f, 'McCalib/src,McCalib/include,/verif/frontend') for f in sorted(glob.glob(VERIF + '/frontend/tu_*.cpp'))]
    PROG = front.load(files, scratch, extra)
    violations, notes, finds = [], [], []
    tree_errors = [(f, e) for f, e in PROG.errors]
    import spec
    for f in sorted(glob.glob(HERE + '/contracts/c*.py')): importlib.import_module('contracts.' + os.path.basename(f)[:-3])
    CONS = [c for n in sorted(spec.REG) for c in spec.REG[n]]
    byname = {}
    for i, c in enumerate(CONS): byname.setdefault(c.name, []).append(i)
    todo = [i for i, c in enumerate(CONS) if ID in c.props and c.kind == 'proved']
    own = set(todo)
    res = {}
    if tree_errors:
        for f, e in tree_errors: log('no answer: %s cannot be parsed: %s' % (f, e))
        return 3
    else:
        while todo:
            res.update(verify_all(todo))
            nxt = set()
            for i in todo:
                for n in res[i]['used']: nxt.update(j for j in byname.get(n, []) if CONS[j].kind == 'proved')
            todo = sorted(nxt - set(res))
    rep.join()
    if not own and not rep.has:
        log('no answer: no contract and no replay program for ' + ID)
        return 3
    # ----------------------------------------------------------------- replay
    cases = []; runs = {}
    if rep.has and not rep.ok:
        log('no answer: the replay program does not build against the tree: ' + rep.out)
        return 3
    elif rep.has:
        cases = subprocess.run([scratch + '/replay/' + ID, '--list'], stdout=subprocess.PIPE, text=True).stdout.split()
        scale = 1 if TIER == 'quick' else 8
        from concurrent.futures import ThreadPoolExecutor
        failedobl = [r for r in res.values() if r['status'] == 'failed']
        def one(c, s): return c, run_case(c, s, SEED, 200 if s <= 1 else 500)
        with ThreadPoolExecutor(6) as ex:
            for c, o in ex.map(lambda c: one(c, scale), cases): runs[c] = o
        if failedobl and TIER == 'quick' and all(o[0] == 'ok' for o in runs.values()) and time.time() - T0 < 400:
            with ThreadPoolExecutor(6) as ex:   # look harder for the failing input
                for c, o in ex.map(lambda c: one(c, 5), [c for c in cases if not c.startswith('KF_')]):
                    if o[0] != 'ok': runs[c] = o
        if failedobl and ID in RACES and all(o[0] == 'ok' for o in runs.values()): runs.update(races())
    kf = known()
    def is_known(kind, name, msg):
        for k, n, pat, txt in kf:
            if k == kind and n == name and re.search(pat, msg): return txt
        return None
    bad_cases = []
    for c, (st, it, msg) in runs.items():
        if st == 'ok': continue
        t = is_known('case', c, '%s: %s' % (st, msg))
        if t: finds.append('%s [case %s iteration %d: %s]' % (t, c, it, msg[:200]))
        else: bad_cases.append((c, st, it, msg))
    fails = []
    for i, r in sorted(res.items()):
        if r['status'] == 'failed':
            for nm, ok, how in r['obls']:
                if ok: continue
                t = is_known('obligation', r['key'], nm)
                if t: finds.append('%s [obligation "%s" of %s]' % (t, nm, r['key']))
                else: fails.append((r, nm, how))
    # ---------------------------------------------------------------- report
    def head(f): f.write('property %s, tree %s, seed %d, tier %s\n\n' % (ID, REPO, SEED, TIER))
    def obltext(f):
        for r, nm, how in fails:
            f.write('FAILED OBLIGATION\n  function: %s (line %s)\n  obligation: %s\n  verifier output: %s\n\n' % (r['key'], r['line'], nm, how))
    n = 0
    for c, st, it, msg in bad_cases:
        n += 1
        path = '%s/replay/%s-%d.txt' % (EV, ID, n)
        with open(path, 'w') as f:
            head(f)
            f.write('FAILING INPUT on the real code\n  replay program: replay/%s.cpp, case %s, seed %d, iteration %d\n  outcome: %s: %s\n' % (ID, c, SEED, it, st, msg))
            f.write('  run again: replay/build.sh DIR %s && DIR/%s LOG %d 1 %s %d\n\n' % (ID, ID, SEED, c, it))
            obltext(f)
        log('failing input: case %s iteration %d: %s: %s' % (c, it, st, msg[:600]))
        log('VIOLATION property=%s replay=%s' % (ID, path))
    for r, nm, how in fails: log('failed obligation: %s :: %s :: %s' % (r['key'], nm, how[:600]))
    if not bad_cases and (fails or violations):
        path = '%s/replay/%s-1.txt' % (EV, ID)
        with open(path, 'w') as f:
            head(f)
            for k, a, m, _ in violations: f.write('%s %s: %s\n\n' % (k, a, m))
            obltext(f)
            if rep.has: f.write('replay cases run on the real code without a failing input: %s\n' % ', '.join('%s (%d)' % (c, o[1]) for c, o in runs.items()))
        for k, a, m, _ in violations: log('%s %s: %s' % (k, a, m[:600]))
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (ID, path))
    for t in finds: log('KNOWN-FINDING: property=%s %s' % (ID, t))
    nviol = len(bad_cases) + (1 if not bad_cases and (fails or violations) else 0)
    # -------------------------------------------------------------- evidence
    meta = json.load(open(VERIF + '/levels.json')).get(ID, {})
    obl = sum(len(r['obls']) for r in res.values()); dis = sum(1 for r in res.values() for o in r['obls'] if o[1])
    proved = [r for r in res.values() if r['status'] == 'proved']
    unsup = [r for r in res.values() if r['status'] == 'unsupported']
    tot = {}
    for r in res.values():
        for a, b in r['stats'].items(): tot[a] = tot.get(a, 0) + b
    trusted = sorted({t for r in res.values() for t in r['trusted']})
    inl = sorted({t for r in res.values() for t in r['inlined']})
    asm = sorted({'%s: %s' % (r['key'], a) for r in res.values() for a in r['assume']})
    standin = [c for c in cases if not c.startswith('KF_')]
    ev = dict(property=ID, tier=TIER, seed=SEED, level=meta.get('level', 'proof'), wall_s=round(time.time() - T0, 2), violations=nviol,
        assumptions=meta.get('assumptions', []) + asm + BASE_ASSUMPTIONS,
        coverage=dict(obligations=obl, discharged=dis, checker_cmd='python3-vt vc/check.py %s %s' % (ID, TIER),
            trusted_base=['clang 18 parser and AST (frontend/cxxast.cpp)', 'VC generator vc/exec.py, vc/loops.py, vc/lib*.py (library models)', 'term kernel vc/terms.py, prover vc/prove.py', 'z3 ' + z3v(), 'sympy (Groebner reduction)'] + ['library model: ' + t for t in trusted],
            functions_under_contract=len(res), functions_proved=len(proved),
            functions=[dict(function=r['key'], line=r['line'], own=i in own, status=r['status'], obligations=len(r['obls']), loops=r['loops'], seconds=round(r['time'], 3), reason=r['reason']) for i, r in sorted(res.items())],
            inlined_without_contract=inl,
            backends=dict(kernel=tot.get('kernel', 0), congruence=tot.get('congr', 0), z3=tot.get('z3', 0), ring=tot.get('ring', 0)),
            solver_seconds=round(tot.get('z3_time', 0) + tot.get('ring_time', 0), 3),
            bounded=dict(label='bounded: concrete runs of the real code against the executable contract, not counted as proved',
                functions=sorted(set(meta.get('bounded', [])) | {r['key'] for r in unsup}),
                cases=[dict(case=c, iterations=runs[c][1], outcome=runs[c][0]) for c in cases if c in runs]),
            evaluations=sum(max(0, o[1]) for o in runs.values())),
        known_findings=finds)
    json.dump(ev, open('%s/%s.json' % (EV, ID), 'w'), indent=1)
    log('%s %s: %d contracts (%d proved, %d failed, %d outside reach), %d/%d obligations, %d replay cases (%d runs), %.1f s' % (ID, TIER, len(res), len(proved),
        len([r for r in res.values() if r['status'] == 'failed']), len(unsup), dis, obl, len(runs), ev['coverage']['evaluations'], time.time() - T0))
    for r in unsup: log('  bounded stand-in only: %s (%s)' % (r['key'], r['reason']))
    sys.stdout.flush()
    return 1 if nviol else 0

def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception: return '?'

BASE_ASSUMPTIONS = [
 'A-REAL: double/float arithmetic is treated as exact real arithmetic',
 'A-INT: int/size_t arithmetic does not overflow',
 'A-NDEBUG: release build; assert() and log statements (with their argument expressions) are dropped by the extraction',
 'A-LIVE: weak_ptr members point to live objects owned by the calibration maps (lock() is not null)',
 'A-KEY: operator[] on a map key that is absent reads the default value and the insertion of that default is not tracked, except where a contract says so',
 'A-ROT: stored rotation vectors have angle below pi, so Rodrigues conversion round-trips; pose matrices are rigid',
 'A-LIB: OpenCV/Ceres/Boost routines without a model are deterministic functions of their arguments',
]
if __name__ == '__main__':
    rc = 1
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(rc)

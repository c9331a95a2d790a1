"""Front end driver: runs cxxast over the current /repo sources and indexes the
functions, records and globals it prints."""
import json, os, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'

FLAGS = ['-std=c++17', '-DNDEBUG', '-I', REPO + '/McCalib/include', '-I/usr/include/opencv4',
         '-I/usr/include/eigen3', '-resource-dir', LLVM + '/lib/clang/18', '-w']

def build_tool(out):
    """build the AST printer (about 20 s); used when setup_cmd was not run"""
    src = VERIF + '/frontend/cxxast.cpp'
    cmd = ['/usr/bin/clang++', '-std=c++17', '-O1', '-fno-rtti', src, '-o', out,
           '-I' + LLVM + '/include', '-L' + LLVM + '/lib', LLVM + '/lib/libclang-cpp.so.18.1', '-lLLVM-18', '-Wno-deprecated']
    subprocess.run(cmd, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def tool(scratch):
    src = VERIF + '/frontend/cxxast.cpp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    p = VERIF + '/build/cxxast-' + h
    if os.path.exists(p): return p
    q = os.path.join(scratch, 'cxxast-' + h)
    if not os.path.exists(q): build_tool(q)
    return q

def freeze(x):
    if isinstance(x, list): return tuple(freeze(y) for y in x)
    return x

class Program:
    def __init__(self):
        self.fns = {}      # (name, sigkey) -> dict
        self.byname = {}
        self.records = {}  # qname -> [(field, type, init)]
        self.globals = {}
        self.constf = {}   # const members with an initialiser
        self.errors = []

    def add(self, d):
        idmap = {}
        for F in d['functions']:
            sig = tuple(freeze(p[2]) for p in F['params'])
            key = (F['name'], sig, freeze(F['record']) if F['record'] else F['file'] if F['name'] == 'main' else None)
            F['tu'] = id(d)
            F['key'] = key
            if key not in self.fns:
                self.fns[key] = F
                self.byname.setdefault(F['name'], []).append(F)
        for r in d['records']:
            self.records.setdefault(r['qname'], [(f[0], freeze(f[1]), f[2]) for f in r['fields']])
            for f in r['fields']:
                if len(f) > 3 and f[3] and f[2]: self.constf[(r['qname'], f[0])] = f[2]
        for g in d['globals']:
            self.globals.setdefault(g['name'], g)

    def find(self, name, sig=None, nargs=None):
        l = self.byname.get(name, [])
        if len(l) > 1 and sig is not None:
            l2 = [F for F in l if tuple(freeze(p[2]) for p in F['params']) == sig]
            if l2: l = l2
        if len(l) > 1 and nargs is not None:
            l2 = [F for F in l if len(F['params']) == nargs]
            if l2: l = l2
        return l[0] if l else None

def load(files, scratch, extra=()):
    """files: repo-relative sources; extra: (absolute TU, roots) pairs"""
    t = tool(scratch)
    jobs = []
    for f in files:
        jobs.append((REPO + '/' + f, 'McCalib/src,McCalib/include,/apps/'))
    for f, roots in extra:
        jobs.append((f, roots))
    prog = Program()
    def run(job):
        f, roots = job
        out = os.path.join(scratch, os.path.basename(f) + '.ast.json')
        p = subprocess.run([t, out, f, roots, '--'] + FLAGS, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            return f, None, p.stdout[-2000:]
        return f, json.load(open(out)), ''
    with ThreadPoolExecutor(8) as ex:
        for f, d, err in ex.map(run, jobs):
            if d is None: prog.errors.append((f, err))
            else: prog.add(d)
    return prog

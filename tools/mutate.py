#!/usr/bin/env python3-vt
"""mutate.py FILE... [-j N] [-k name]: development tool. FILE holds entries
    ref(name, (file, old, new[, occurrence])...)          an edit that keeps the behaviour
    mut(name, property, (file, old, new[, occurrence])...) an edit that breaks the property
Each is applied to a scratch overlay of /repo; the contracts are verified there (no replay).
Reports every ref with an obligation that is not proved and every mut with none that fails."""
import sys, os, json, glob, shutil, subprocess, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def child(d, prop):
    sys.path.insert(0, V + '/vc'); sys.setrecursionlimit(20000)
    import front, importlib, verify, spec
    from prove import Prover
    p = front.Program()
    for f in sorted(glob.glob(d + '/ast/*.json')): p.add(json.load(open(f)))
    for f in sorted(glob.glob(V + '/vc/contracts/c*.py')): importlib.import_module('contracts.' + os.path.basename(f)[:-3])
    cons = [c for n in sorted(spec.REG) for c in spec.REG[n] if c.kind == 'proved']
    pr = Prover(8000)
    todo = [c for c in cons if prop is None or prop in c.props]; seen = set(); out = []
    while todo:
        c = todo.pop(0)
        if id(c) in seen: continue
        seen.add(id(c))
        t = time.time()
        R = verify.verify(p, c, pr)
        if R.status != 'proved': out.append((R.status, c.key, ','.join(c.props), R.reason or '', [o.name for o in R.obls if not o.ok][:4]))
        if time.time() - t > 20: out.append(('slow', c.key, '', '%.0f s' % (time.time() - t), []))
        for n in R.used: todo += spec.REG.get(n, []) if isinstance(spec.REG, dict) else []
    json.dump(out, open(d + '/out.json', 'w'))
def run(e, base):
    kind, name, prop, edits = e
    d = tempfile.mkdtemp(prefix='mt-'); src = d + '/src'
    try:
        for s in ('McCalib/src', 'McCalib/include', 'apps'): shutil.copytree('/repo/' + s, src + '/' + s, ignore=shutil.ignore_patterns('*.jpg', '*.png', 'build'))
        ch = set()
        for f, old, new, *occ in edits:
            p = src + '/' + f; s = open(p).read(); i = -1
            for _ in range((occ[0] if occ else 0) + 1):
                i = s.find(old, i + 1)
                if i < 0: return kind, name, prop, 'NOT FOUND: ' + old[:60]
            open(p, 'w').write(s[:i] + new + s[i + len(old):]); ch.add(f)
        os.makedirs(d + '/ast')
        env = dict(os.environ, VERIF_REPO=src)
        hdr = any(not f.endswith('.cpp') for f in ch)
        fs = [os.path.relpath(f, src) for f in glob.glob(src + '/McCalib/src/*.cpp') + glob.glob(src + '/apps/*/src/*.cpp')]
        for f in fs:
            o = d + '/ast/' + os.path.basename(f) + '.ast.json'
            if not hdr and f not in ch: os.symlink(base + '/' + os.path.basename(o), o)
        code = 'import sys; sys.path.insert(0, %r); import front; p = front.load(%r, %r); print(p.errors)' % (V + '/vc', [f for f in fs if hdr or f in ch], d + '/ast')
        r = subprocess.run(['python3-vt', '-c', code], env=env, capture_output=True, text=True)
        if r.stdout.strip() != '[]': return kind, name, prop, 'DOES NOT COMPILE ' + (r.stdout + r.stderr)[-600:]
        r = subprocess.run(['python3-vt', os.path.abspath(__file__), '--child', d, prop or ''], env=env, capture_output=True, text=True, timeout=1200)
        if not os.path.exists(d + '/out.json'): return kind, name, prop, 'VERIFIER CRASH ' + r.stderr[-600:]
        return kind, name, prop, json.load(open(d + '/out.json'))
    except subprocess.TimeoutExpired: return kind, name, prop, 'TIMEOUT'
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    a = sys.argv[1:]; j = 8; k = None; E = []
    if '-j' in a: i = a.index('-j'); j = int(a[i + 1]); del a[i:i + 2]
    if '-k' in a: i = a.index('-k'); k = a[i + 1]; del a[i:i + 2]
    def ref(name, *ed): E.append(('ref', name, None, ed))
    def mut(name, prop, *ed): E.append(('mut', name, prop, ed))
    for f in a: exec(compile(open(f).read(), f, 'exec'), dict(ref=ref, mut=mut))
    E = [e for e in E if not k or k in e[1]]
    base = tempfile.mkdtemp(prefix='mtbase-')
    subprocess.run(['python3-vt', '-c', 'import sys,glob,os; sys.path.insert(0,%r); import front; front.load([os.path.relpath(f,"/repo") for f in glob.glob("/repo/McCalib/src/*.cpp")+glob.glob("/repo/apps/*/src/*.cpp")], %r)' % (V + '/vc', base)], check=True)
    from concurrent.futures import ThreadPoolExecutor
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for kind, name, prop, out in ex.map(lambda e: run(e, base), E):
            if isinstance(out, str): print('??', kind, name, out); bad += 1; continue
            failed = [o for o in out if o[0] == 'failed']
            other = [o for o in out if o[0] != 'failed']
            if kind == 'ref' and (failed or other):
                bad += bool(failed); print('ALARM' if failed else 'outside', name)
            elif kind == 'mut' and not failed: bad += 1; print('MISSED' if not other else 'MISSED(outside)', name, prop)
            else: print('ok', kind, name); 
            for o in (failed + other if kind == 'ref' or not failed else []): print('     ', o[0], o[1], o[2], str(o[3])[:300], str(o[4])[:500])
            sys.stdout.flush()
    shutil.rmtree(base, ignore_errors=True)
    print(len(E), 'entries,', bad, 'to look at')
if __name__ == '__main__':
    if sys.argv[1:2] == ['--child']: child(sys.argv[2], sys.argv[3] or None)
    else: main()

#!/usr/bin/env python3
"""Planted bugs: (re)generates /verif/seeded/<id>/ from the entries of tools/seeds/*.py and
validates them in a scratch copy of /repo.   usage: seeds.py [--validate] [ID...]"""
import os, re, sys, json, subprocess, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, edits=edits if isinstance(edits, list) else [edits], needs=needs, breaks=breaks, demo=demo)
def seedr(id, prop, edits, needs, breaks, cases, scale=1, sh=''):
    """the demonstration is the named cases of the property's replay program, which run the real code on random inputs"""
    seed(id, prop, edits, needs, breaks, dict(cases=cases.split(), scale=scale, sh=sh))
for f in sorted(glob.glob(V + '/tools/seeds/*.py')): exec(open(f).read())
SH = r'''#!/bin/bash
# exit 0 when the property holds on this input, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -O1 -w -DNDEBUG -I"$PWD/McCalib/include" -I"$PWD/McCalib/src" -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 -Wl,-z,muldefs \
  "$D/demo.cpp" -o "$T/demo" "$PWD/_build/McCalib/libMcCalib.a" -lopencv_aruco -lopencv_highgui -lopencv_imgcodecs -lopencv_calib3d -lopencv_features2d -lopencv_flann -lopencv_imgproc -lopencv_core \
  -lceres -lglog -lgflags $L/libboost_log_setup.a $L/libboost_log.a $L/libboost_chrono.a $L/libboost_filesystem.a $L/libboost_atomic.a $L/libboost_regex.a \
  -licudata -licui18n -licuuc $L/libboost_thread.a $L/libboost_system.a -lpthread -lrt -ldl || exit 0
cd "$T" && timeout 250 ./demo "$T" >"$T/out" 2>&1; r=$?
tail -5 "$T/out"; exit $r
'''
PRE = '''#include "McCalib.hpp"
#include "geometrytools.hpp"
#include "utilities.hpp"
#include <boost/log/core.hpp>
#include <cstdio>
#include <fstream>
#include <random>
using namespace McCalib;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); bad = 1; } } while (0)
static bool near(double a, double b, double t = 1e-6) { return std::abs(a - b) <= t; }
static cv::Mat V(double a, double b, double c) { return (cv::Mat_<double>(3, 1) << a, b, c); }
static bool near(const cv::Mat &a, const cv::Mat &b, double t = 1e-6) { return a.size() == b.size() && cv::norm(a, b, cv::NORM_INF) <= t; }
'''
POST = '''
int main(int argc, char **argv) { boost::log::core::get()->set_logging_enabled(false); body(argv[1]); return bad; }
'''
SHR = r'''#!/bin/bash
# exit 0 when the property holds on the inputs tried, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -O1 -w -DNDEBUG -I"$PWD/McCalib/include" -I"$PWD/McCalib/src" -I"$PWD/apps/create_charuco_boards/src" -I"$PWD/apps/calibrate/src" -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 -Wl,-z,muldefs \
  "$D/demo.cpp" -o "$T/demo" "$PWD/_build/McCalib/libMcCalib.a" -lopencv_aruco -lopencv_highgui -lopencv_imgcodecs -lopencv_calib3d -lopencv_features2d -lopencv_flann -lopencv_imgproc -lopencv_core \
  -lceres -lglog -lgflags $L/libboost_log_setup.a $L/libboost_log.a $L/libboost_chrono.a $L/libboost_filesystem.a $L/libboost_atomic.a $L/libboost_regex.a \
  -licudata -licui18n -licuuc $L/libboost_thread.a $L/libboost_system.a -lpthread -lrt -ldl || exit 0
cd "$T"; export REPLAY_TMP=$T
for c in %s; do
  timeout 120 ./demo "$T/log" 7 %s $c >"$T/out" 2>&1; r=$?
  if [ $r != 0 ]; then tail -3 "$T/log"; exit 1; fi
done
exit 0
'''
def gen(i):
    s = SEEDS[i]
    d = '%s/seeded/%s' % (V, i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(['git', '-C', R, 'worktree', 'prune'], check=True)
        files = sorted({e[0] for e in s['edits']})
        for f in files:
            for k in ('a', 'b'):
                os.makedirs(os.path.dirname('%s/%s/%s' % (t, k, f)), exist_ok=True)
                src = subprocess.run(['git', '-C', R, 'show', 'HEAD:' + f], stdout=subprocess.PIPE, check=True).stdout.decode()
                open('%s/%s/%s' % (t, k, f), 'w').write(src)
                os.chmod('%s/%s/%s' % (t, k, f), os.stat(R + '/' + f).st_mode)
        for e in s['edits']:
            p = '%s/b/%s' % (t, e[0])
            x = open(p).read()
            n = x.count(e[1])
            w = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and w is None): raise SystemExit('%s: %d matches of %r' % (i, n, e[1]))
            if w is None: x = x.replace(e[1], e[2])
            else:
                parts = x.split(e[1]); x = e[1].join(parts[:w + 1]) + e[2] + e[1].join(parts[w + 1:])
            open(p, 'w').write(x)
        r = subprocess.run(['git', 'diff', '--no-index', '--src-prefix=', '--dst-prefix=', 'a', 'b'], cwd=t, stdout=subprocess.PIPE).stdout.decode()
        open(d + '/patch.diff', 'w').write(r)
    finally: shutil.rmtree(t)
    if isinstance(s['demo'], dict):
        open(d + '/demo.sh', 'w').write(SHR % (' '.join(s['demo']['cases']), s['demo']['scale']))
        need, todo = set(), [s['prop'] + '.cpp']
        while todo:
            f = todo.pop(); x = open('%s/replay/%s' % (V, f)).read()
            open('%s/%s' % (d, 'demo.cpp' if f.endswith('.cpp') else f), 'w').write(x)
            for g in re.findall(r'#include "(\w+\.hpp)"', x):
                if os.path.exists('%s/replay/%s' % (V, g)) and g not in need: need.add(g); todo.append(g)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        os.chmod(d + '/demo.sh', 0o755)
        return
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(PRE + s['demo'] + POST)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
def validate(i, W):
    d = '%s/seeded/%s' % (V, i)
    sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    sh('rm -f %s/demo/*; cp %s/seeded/%s/demo.* %s/seeded/%s/*.hpp %s/demo/' % (W, V, i, V, i, W))
    r0 = sh('bash %s/demo/demo.sh' % W, cwd=W + '/repo')
    a = sh('git apply %s/patch.diff' % d, cwd=W + '/repo')
    b = sh('ninja -C %s/repo/_build -j8' % W)
    t = sh('%s/repo/_build/tests/boost_tests_run --run_test=CheckGeometryTools,CheckGraph' % W, cwd=W + '/repo')
    r1 = sh('bash %s/demo/demo.sh' % W, cwd=W + '/repo')
    sh('git checkout -- .', cwd=W + '/repo'); sh('ninja -C %s/repo/_build -j8' % W)
    ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and t.returncode == 0 and r1.returncode != 0
    print('%-24s %s' % (i, 'ok' if ok else 'BAD'), '' if ok else 'clean=%d apply=%d build=%d tests=%d patched=%d\n%s' % (r0.returncode, a.returncode, b.returncode, t.returncode, r1.returncode, (r0.stdout + a.stdout + t.stdout[-500:] + r1.stdout)[-1500:]), flush=True)
    return ok
if __name__ == '__main__':
    val = '--validate' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(SEEDS)
    for i in ids: gen(i)
    if val:
        W = os.environ.get('SEEDW', '/tmp/seedwork')
        if not os.path.exists(W + '/repo'):
            os.makedirs(W + '/demo'); 
            subprocess.run('cp -a /repo %s/repo && rm -rf %s/repo/_build && cmake -S %s/repo -B %s/repo/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON >/dev/null && ninja -C %s/repo/_build -j8 >/dev/null' % (W, W, W, W, W), shell=True, env=dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++'))
        else:
            subprocess.run('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && ninja -C %s/repo/_build -j8 >/dev/null' % W, shell=True, cwd=W + '/repo')
        badn = sum(not validate(i, W) for i in ids)
        sys.exit(1 if badn else 0)

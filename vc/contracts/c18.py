"""C18: non-overlapping groups are linked by consistent hand-eye input"""
from .base import *
from .c04 import avg_rotation, median_of
M = 'McCalib::'
VI, VM, PAIR = ('vec', 'I'), ('vec', 'M'), ('st', 'pair', 'I', 'I')

def hand_eye(r1, t1, r2, t2, method):
    c = mkraw('call:cv::calibrateHandEye', (r1, t1, r2, t2, I(method)), 'C')
    return rt4(mkraw('out', (c, 4), 'M'), mkraw('out', (c, 5), 'M'))
TSAI, HORAUD = 0, 2

def inputs(p1, p2, dom, idx=lambda i: i):
    """rotations and translations of the inverted poses of the first list and the poses of the second, in the same order"""
    a, b = lambda i: minv(vget(p1, idx(i))), lambda i: vget(p2, idx(i))
    return [collect('M', dom, lambda i, x=x, f=f: f(x(i))) for x in (a, b) for f in (rot3, trn3)]

def same_number(k): return eq(vlen(k.arg(0)), vlen(k.arg(1)))

@contract(M + 'handeyeCalibration', 'C18', shapes={0: M44, 1: M44}, pre=same_number, bounds=True)
def _(k):
    p1, p2 = k.arg(0), k.arg(1)
    k.ret(hand_eye(*inputs(p1, p2, drange(I(0), vlen(p1))), HORAUD))

def row6(p, q): return mat((1, 6, 'd'), [tm.at(x, I(i), I(3)) for x in (p, q) for i in range(3)])

def translations(p1, p2):
    n = ite(le(vlen(p1), vlen(p2)), vlen(p1), vlen(p2))
    b = bvar('k', 'I')
    rows = loops.finish(default('M'), [(((b, drange(I(0), n)),), TRUE, 'mpushrow', (row6(vget(p1, b), vget(p2, b)),))])
    return mkraw('mconv', (rows, I(5)), 'M')

@contract(M + 'getTranslationsForClustering', 'C18', shapes={0: M44, 1: M44}, bounds=True)
def _(k): k.ret(translations(k.arg(0), k.arg(1)))

def fact(k, g):
    """known of the result where the function is called (its own proof establishes it)"""
    k.st.assume(g)
def arbitrary(k, sort): return mkraw('chosen', (k.con.name, 'result', k.rnd('c:result')), sort)

def distinct_indices(v, n, count):
    i, j = sym('any.i', 'I'), sym('any.j', 'I')
    ok = and_(le(I(0), i), lt(i, count))
    return [('as many as asked for', eq(vlen(v), count)),
            ('every draw is a valid index', or_(not_(ok), and_(le(I(0), vget(v, i)), lt(vget(v, i), n)))),
            ('no index is drawn twice', or_(not_(and_(ok, le(I(0), j), lt(j, i))), ne(vget(v, i), vget(v, j))))]

@contract(M + 'selectClusters', 'C18', pre=lambda k: and_(le(I(0), k.arg(1)), le(k.arg(1), k.arg(0))), bounds=True,
          post=lambda k, v: distinct_indices(v, k.arg(0), k.arg(1)))
def _(k):
    n, count = k.arg(0), k.arg(1)
    v = arbitrary(k, VI)
    fact(k, eq(vlen(v), count))
    fact(k, forall(drange(I(0), count), lambda i: and_(le(I(0), vget(v, i)), lt(vget(v, i), n))))
    k.ret(v)

def label(labels, i): return mkraw('at1', (labels, i), 'R')
def occurring(k):
    """every selected cluster has a pose"""
    labels, sel_ = k.arg(0), k.arg(1)
    return forall(drange(I(0), vlen(sel_)), lambda i: lt(I(0), vlen(collect('I', drange(I(0), exm.mrows(labels)), lambda j: j, lambda j: eq(toreal(vget(sel_, i)), label(labels, j))))))

def one_each(k, v):
    labels, sel_ = k.arg(0), k.arg(1)
    i = sym('any.i', 'I')
    ok = and_(le(I(0), i), lt(i, vlen(sel_)))
    return [('one pose for each cluster', eq(vlen(v), vlen(sel_))),
            ('the pose exists', or_(not_(ok), and_(le(I(0), vget(v, i)), lt(vget(v, i), exm.mrows(labels))))),
            ('the pose is of its cluster', or_(not_(ok), eq(label(labels, vget(v, i)), toreal(vget(sel_, i)))))]

@contract(M + 'selectPoses', 'C18', inv=('k-means leaves no cluster without a pose', occurring), bounds=True, post=one_each)
def _(k):
    labels, sel_ = k.arg(0), k.arg(1)
    v = arbitrary(k, VI)
    fact(k, eq(vlen(v), vlen(sel_)))
    fact(k, forall(drange(I(0), vlen(sel_)), lambda i: and_(le(I(0), vget(v, i)), lt(vget(v, i), exm.mrows(labels)))))
    k.ret(v)

def valid_indices(lst, n): return lambda k: and_(same_number(k), forall(drange(I(0), vlen(k.arg(lst))), lambda i: and_(le(I(0), vget(k.arg(lst), i)), lt(vget(k.arg(lst), i), vlen(k.arg(0))))))

def append_inputs(k, p1, p2, chosen, outs):
    new = inputs(p1, p2, drange(I(0), vlen(chosen)), lambda i: vget(chosen, i))
    for o, x in zip(outs, new):
        old = k.arg(o)
        (ev,) = x.args[1]
        k.setarg(o, loops.finish(old, [ev]))

@contract(M + 'preparePosesForHandEyeCalibration', 'C18', shapes={0: M44, 1: M44}, pre=valid_indices(2, 0), bounds=True)
def _(k): append_inputs(k, k.arg(0), k.arg(1), k.arg(2), (3, 4, 5, 6))

@contract(M + 'getPosesForHandeyeCalibration', 'C18', shapes={0: M44, 1: M44}, bounds=True,
          pre=lambda k: and_(same_number(k), le(I(0), k.arg(4)), le(k.arg(4), k.arg(3)), le(exm.mrows(k.arg(2)), vlen(k.arg(0)))))
def _(k):
    sel_ = k.call(M + 'selectClusters', None, k.arg(3), k.arg(4))
    chosen = k.call(M + 'selectPoses', None, k.arg(2), sel_)
    k.setarg(9, chosen)
    append_inputs(k, k.arg(0), k.arg(1), chosen, (5, 6, 7, 8))

EPS = mkraw('const', ('std::numeric_limits::epsilon',), 'R')
def disagreement(A, B, X):
    """angle between the motion A of the first camera's objects and the motion B of the second's, mapped by X, in degrees"""
    E = mmul(minv(B), minv(X), A, X)
    tr = add(*[tm.at(rot3(E), I(i), I(i)) for i in range(3)])
    c = mul(Rl(Fraction(1, 2)), sub(sub(tr, EPS), Rl(1)))
    return rdiv(mul(uf('acos', 'R', c), Rl(180)), Rl(Fraction('3.141592653589793')))

@contract(M + 'checkSetConsistency', 'C18', shapes={0: M44, 1: M44, 3: M44}, pre=valid_indices(2, 0), bounds=True)
def _(k):
    p1, p2, chosen, X = [k.arg(i) for i in range(4)]
    if k.con.name != k.ex.top: k.ret(uf('disagreement', 'R', p1, p2, chosen, X)); return      # callers need its name only
    dom = drange(I(0), vlen(chosen))
    k.var('worst', Rl(0))
    def first(k, i):
        def second(k, j):
            a, b = vget(chosen, i), vget(chosen, j)
            e = disagreement(mmul(vget(p1, b), minv(vget(p1, a))), mmul(vget(p2, b), minv(vget(p2, a))), X)
            w = k.get('worst')
            k.when(ne(i, j), lambda k: k.let('worst', ite(lt(w, e), e, w)))
        k.each(dom, second)
    k.each(dom, first)
    k.ret(k.get('worst'))

def labelled(ex, st, k, v):
    """the labels k-means gives exactly these translations for exactly this number of clusters (its tuning is left open)"""
    if isinstance(v, T) and v.op == 'mconv': v = v.args[0]
    c = v.args[0] if isinstance(v, T) and v.op == 'out' and v.args[1] in (2, I(2)) else None
    if c is None or c.op != 'call:cv::kmeans': return [('the labels of k-means are returned', TRUE, FALSE)]
    return [('all translations are clustered', c.args[0], k.arg(0)), ('number of clusters', c.args[1], k.arg(1))]

@contract(M + 'clusterTranslations', 'C18', after=labelled)
def _(k):
    v = mkraw('clusters', (k.arg(0), k.arg(1)), 'M')
    k.ex.trusted.add('cv::kmeans labels every row and leaves no cluster empty')
    k.ret(v)

@contract(M + 'handeyeBootstraptTranslationCalibration', 'C18', shapes={2: M44, 3: M44}, bounds=True,
          pre=lambda k: and_(eq(vlen(k.arg(2)), vlen(k.arg(3))), le(I(0), k.arg(0))))
def _(k):
    nb, its, p1, p2 = [k.arg(i) for i in range(4)]
    T6 = k.call(M + 'getTranslationsForClustering', None, p1, p2)
    n = exm.mrows(T6)
    n = ite(le(nb, n), nb, n)
    labels = k.call(M + 'clusterTranslations', None, T6, n)
    pick = ite(le(n, I(6)), n, I(6))
    parts = ['r0', 'r1', 'r2', 't0', 't1', 't2']
    for x in parts: k.var(x, vnil('R'))
    k.var('found', I(0))
    def draw(k, i):
        outs = []
        for x, so in (('a', VM), ('b', VM), ('c', VM), ('d', VM), ('sel', VI)):
            k.let(x, vnil(so[1])); outs.append(Loc(('v', 'spec', x), (), so))
        k.call(M + 'getPosesForHandeyeCalibration', None, p1, p2, labels, n, pick, *outs)
        X = hand_eye(k.get('a'), k.get('b'), k.get('c'), k.get('d'), TSAI)
        err = k.call(M + 'checkSetConsistency', None, p1, p2, k.get('sel'), X)
        def keep(k):
            k.let('found', add(k.get('found'), I(1)))
            six = V6(X)
            for j, x in enumerate(parts): k.let(x, vpush(k.get(x), sel(six, j)))
        k.when(lt(err, Rl(15)), keep)
    k.each(drange(I(0), its), draw)
    rot = [k.get(x) for x in parts[:3]]
    def average(k): k.ret(rt4(rodr(avg_rotation(k, *rot, TRUE)), vec3(*[median_of(k.get(x)) for x in parts[3:]])))
    k.when(lt(I(3), k.get('found')), average, lambda k: k.ret(k.call(M + 'handeyeCalibration', None, p1, p2)))

def seen_together(k, g1, g2, use):
    """for every frame both groups have: the observations of the two groups in it"""
    f1, f2 = [k.f('frames_', mget(k.f('cam_group_'), g), 'CameraGroup') for g in (g1, g2)]
    def one(k, n):
        fr = mget(f1, n)
        def common(k):
            ids = k.f('cam_group_idx_', fr, 'Frame')
            at_ = lambda g: mget(k.f('cam_group_observations_', fr, 'Frame'), lib_.mkfindpos(drange(I(0), vlen(ids)), found(ids, g), vlen(ids)))
            use(k, at_(g1), at_(g2))
        k.when(and_(mhas(f2, n), eq(fr, mget(f2, n))), common)
    k.each(dkeys(f1), one)

def found(ids, x):
    b = bvar('k', 'I')
    return lam(b, eq(vget(ids, b), x))

def ordered_pairs(k, f):
    groups = dkeys(k.f('cam_group_'))
    k.each(groups, lambda k, g1: k.each(groups, lambda k, g2: k.when(ne(g1, g2), lambda k: f(k, g1, g2))))

@contract(M + 'Calibration::findPairObjectForNonOverlap', 'C18')
def _(k):
    k.setf('no_overlap_object_pair_', tm.mnil(PAIR, PAIR))
    def one(k, g1, g2):
        k.let('count', tm.mnil(PAIR, 'I'))
        objs = k.f('object_3d_')
        id_ = lambda i: k.f('obj_id_', mget(objs, i), 'Object3D')
        k.each(dkeys(objs), lambda k, i: k.each(dkeys(objs), lambda k, j: k.when(ne(id_(i), id_(j)), lambda k: k.let('count', tm.mput(k.get('count'), pair(id_(i), id_(j)), I(0))))))
        def use(k, o1, o2):
            seen1, seen2 = [k.f('object_observations_', o, 'CameraGroupObs') for o in (o1, o2)]
            def both(k, i, j):
                p = pair(*[k.f('object_3d_id_', mget(s, x), 'Object3DObs') for s, x in ((seen1, i), (seen2, j))])
                c = k.get('count')
                k.let('count', tm.mput(c, p, add(mget(c, p), I(1))))
            k.each(dkeys(seen1), lambda k, i: k.each(dkeys(seen2), lambda k, j: both(k, i, j)))
        seen_together(k, g1, g2, use)
        k.let('best', pair(I(0), I(0))); k.let('most', I(0))
        c = k.get('count')
        def pick(k, p):
            b, m = k.get('best'), k.get('most')
            more = lt(m, mget(c, p))
            k.when(more, lambda k: (k.let('best', p), k.let('most', mget(c, p))))
        k.each(dkeys(c), pick)
        k.put('no_overlap_object_pair_', pair(g1, g2), k.get('best'))
    for x, v in (('count', tm.mnil(PAIR, 'I')), ('best', pair(I(0), I(0))), ('most', I(0))): k.var(x, v)
    ordered_pairs(k, one)

@contract(M + 'Calibration::findPoseNoOverlapAllCamGroup', 'C18')
def _(k):
    k.setf('no_overlap_camgroup_pair_pose_', tm.mnil(PAIR, 'M'))
    k.setf('no_overlap__camgroup_pair_common_cnt_', tm.mnil(PAIR, 'I'))
    ordered_pairs(k, lambda k, g1, g2: k.call(M + 'Calibration::initNonOverlapPair', k.this, g1, g2))

@contract(M + 'Calibration::initNonOverlapPair', 'C18')
def _(k):
    g1, g2 = k.arg(0), k.arg(1)
    objs = mget(k.f('no_overlap_object_pair_'), pair(g1, g2))
    a, b = sel(objs, 0), sel(objs, 1)
    k.var('p1', vnil('M')); k.var('p2', vnil('M'))
    def use(k, o1, o2):
        i1, i2 = [k.f('object_idx_', o, 'CameraGroupObs') for o in (o1, o2)]
        pos = lambda v, x: lib_.mkfindpos(drange(I(0), vlen(v)), found(v, x), vlen(v))
        n1, n2 = pos(i1, a), pos(i2, b)
        def visible(k):
            for x, o, n in (('p1', o1, n1), ('p2', o2, n2)):
                obs = mget(k.f('object_observations_', o, 'CameraGroupObs'), n)
                pose = k.call(M + 'CameraGroupObs::getObjectPoseMat', o, k.f('object_3d_id_', obs, 'Object3DObs'))
                k.let(x, vpush(k.get(x), pose))
        k.when(and_(ne(n1, vlen(i1)), ne(n2, vlen(i2))), visible)
    seen_together(k, g1, g2, use)
    p1, p2 = k.get('p1'), k.get('p2')
    def link(k):
        def save(k, X):
            k.put('no_overlap_camgroup_pair_pose_', pair(g1, g2), minv(X))
            k.put('no_overlap__camgroup_pair_common_cnt_', pair(g1, g2), vlen(p1))
        k.when(eq(k.f('he_approach_'), I(0)),
               lambda k: save(k, k.call(M + 'handeyeBootstraptTranslationCalibration', None, I(20), I(200), p1, p2)),
               lambda k: save(k, k.call(M + 'handeyeCalibration', None, p1, p2)))
    k.when(lt(I(3), vlen(p1)), link)

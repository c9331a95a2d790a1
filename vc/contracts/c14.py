"""C14: robust pose estimation"""
from .base import *
from .c05 import Kmat, dist
from .c13 import pixel_distance, P2
from lib import lens_point, undistorted
M = 'McCalib::'
EMPTY = lambda: default('M')

def inliers_of(pts3, pts2, K, D, R, t, thresh):
    """indices of the correspondences whose pixel error under (R, t) is below the threshold, ascending"""
    b = bvar('k', 'I')
    e = pixel_distance(vget(pts2, b), lens_point(0, vget(pts3, b), R, t, K, D))
    return loops.finish(EMPTY(), [(((b, drange(I(0), vlen(pts3))),), lt(e, thresh), 'mpushrow', (b,))])

def listed(v, inl, n):
    """the elements of v whose indices the inlier column lists"""
    return collect(v.sort[1], drange(I(0), n), lambda j: vget(v, as_int(mkraw('at1', (inl, j), 'R'))))
def as_int(x): return exm.Executor.as_int(None, x)

def paired(a, b): return lambda k: eq(vlen(k.arg(a)), vlen(k.arg(b)))

@contract(M + 'ransacP3P', 'C14', pre=paired(0, 1), bounds=True, hook=loops.search_loop(budget=7, best={4: 'R', 5: 't'}))
def _(k):
    pts3, pts2, K, D, R, t, thresh, it, p, refine = [k.arg(i) for i in range(10)]
    found, R0, t0 = k.choose('found', 'B'), k.choose('R', 'M'), k.choose('t', 'M')
    def search(k):
        inl = inliers_of(pts3, pts2, K, D, R0, t0, thresh)
        n = exm.mrows(inl)
        # the reported pose is the sampled one, refined on exactly its inliers when asked to
        better = mkraw('call:cv::solvePnP', (listed(pts3, inl, n), listed(pts2, inl, n), K, D, R0, t0, TRUE, I(0)), 'C')
        ok = and_(refine, le(I(4), n))
        k.setarg(4, ite(ok, mkraw('out', (better, 4), 'M'), R0)); k.setarg(5, ite(ok, mkraw('out', (better, 5), 'M'), t0)); k.ret(inl)
    def none(k): k.ret(EMPTY())
    k.when(lt(vlen(pts3), I(4)), none, lambda k: k.when(found, search, none))

@contract(M + 'ransacTriangulation', 'C14', pre=lambda k: and_(eq(vlen(k.arg(0)), vlen(k.arg(1))), eq(vlen(k.arg(0)), vlen(k.arg(2)))), bounds=True,
          hook=loops.search_loop(budget=7, best={8: 'X'}))
def _(k):
    found, X = k.choose('found', 'B'), k.choose('X', k.arg(8).sort)
    k.when(and_(le(I(2), vlen(k.arg(0))), found), lambda k: k.setarg(8, X))

@contract(M + 'ransacP3PDistortion', 'C14', pre=paired(0, 1), shapes={2: M33})
def _(k):
    pts3, pts2, K, D, R, t, thresh, it, model, p, refine = [k.arg(i) for i in range(11)]
    def brown(k): k.ret(k.call(M + 'ransacP3P', None, pts3, pts2, K, D, k.raw(4), k.raw(5), thresh, it, p, refine))
    def fisheye(k):
        # the search runs where the pinhole part of the lens would see the points
        def seen(p):
            u = undistorted('cv::fisheye::undistortPoints', p, K, D)
            return pt2(add(mul(sel(u, 0), tm.at(K, I(0), I(0))), tm.at(K, I(0), I(2))), add(mul(sel(u, 1), tm.at(K, I(1), I(1))), tm.at(K, I(1), I(2))))
        flat = collect(pts2.sort[1], drange(I(0), vlen(pts2)), lambda b: seen(vget(pts2, b)))
        k.ret(k.call(M + 'ransacP3P', None, pts3, flat, K, mat((1, 5, 'd'), [Rl(0)] * 5), k.raw(4), k.raw(5), thresh, it, p, refine))
    k.when(eq(model, I(0)), brown, lambda k: k.when(eq(model, I(1)), fisheye, lambda k: k.ret(EMPTY())))

def robust_pose(k, tab, ids, then):
    """pose of the observed points by the robust estimator with the lens of the observing camera"""
    cam = k.f('cam_')
    v, m = k.f('intrinsics_', cam, 'Camera'), k.f('distortion_model_', cam, 'Camera')
    pts = collect(tab.sort[1], drange(I(0), vlen(ids)), lambda b: vget(tab, vget(ids, b)))
    k.var('r', k.anything('M')); k.var('t', k.anything('M'))   # no pose when no model was found
    lr, lt_ = [Loc(('v', 'spec', n), (), 'M') for n in 'rt']
    inl = k.call(M + 'ransacP3PDistortion', None, pts, k.f('pts_2d_'), Kmat(v), dist(v, m), lr, lt_, k.arg(0), k.arg(1), m, Rl(Fraction(99, 100)), TRUE)
    r, t = k.get('r'), k.get('t')
    k.setf('pose_', V33(r, t))
    then(k, inl)

SAMEOBS = ('an observation has as many points as point identifiers', lambda k: eq(vlen(k.f('pts_2d_')), vlen(k.f('charuco_id_' if 'BoardObs' in k.con.name else 'pts_id_'))))

@contract(M + 'BoardObs::estimatePose', 'C14', inv=SAMEOBS)
def _(k):
    ids = k.f('charuco_id_')
    def keep(k, inl):
        n = exm.mrows(inl)
        k.setf('valid_', and_(k.f('valid_'), le(I(4), n)))
        k.setf('pts_2d_', listed(k.f('pts_2d_'), inl, n)); k.setf('charuco_id_', listed(ids, inl, n))
    robust_pose(k, k.f('pts_3d_', k.f('board_3d_'), 'Board'), ids, keep)

@contract(M + 'Object3DObs::estimatePose', 'C14', inv=SAMEOBS)
def _(k): robust_pose(k, k.f('pts_3d_', k.f('object_3d_'), 'Object3D'), k.f('pts_id_'), lambda k, inl: None)

def all_of(field, cls):
    def spec(k): k.over(k.f(field), lambda k, key, o: k.call(M + cls + '::estimatePose', o, k.f('ransac_thresh_'), k.f('nb_iterations_')))
    return spec
contract(M + 'Calibration::estimatePoseAllBoards', 'C14')(all_of('board_observations_', 'BoardObs'))
contract(M + 'Calibration::estimatePoseAllObjects', 'C14')(all_of('object_observations_', 'Object3DObs'))

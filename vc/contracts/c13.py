"""C13: reprojection errors are mean pixel distances between observed and predicted points"""
from .base import *
from .c05 import Kmat, dist
from .c02 import moved
from lib import lens_point
M = 'McCalib::'
P2 = ('st', 'Point2', 'R', 'R')

def predicted(model, pts, r, t, K, D, other=None):
    def with_(fish): return collect(P2, drange(I(0), vlen(pts)), lambda b: lens_point(fish, vget(pts, b), r, t, K, D))
    return ite(eq(model, I(1)), with_(1), ite(eq(model, I(0)), with_(0), vnil(P2) if other is None else other))

@contract(M + 'projectPointsWithDistortion', 'C13')
def _(k):
    a = k.arg
    k.setarg(6, predicted(a(5), a(0), a(1), a(2), a(3), a(4), a(6)))

def seen_by(k, cam, pts, r, t):
    """image of points under the pose (r, t) through the lens of a camera"""
    v, m = k.f('intrinsics_', cam, 'Camera'), k.f('distortion_model_', cam, 'Camera')
    return predicted(m, pts, r, t, Kmat(v), dist(v, m))

def pixel_distance(p, q):
    d = [sub(sel(p, i), sel(q, i)) for i in (0, 1)]
    return mkraw('sqrt', (add(mul(d[0], d[0]), mul(d[1], d[1])),), 'R')

def mean_distance(obs, pred):
    n = vlen(pred)
    s = total(drange(I(0), n), lambda b: pixel_distance(vget(obs, b), vget(pred, b)))
    return ite(lt(I(0), n), rdiv(s, toreal(n)), Rl(0))

def points_of(tab, ids): return collect(tab.sort[1], drange(I(0), vlen(ids)), lambda b: vget(tab, vget(ids, b)))

def own_error(k, pts3d, ids):
    six = k.f('pose_')
    pred = seen_by(k, k.f('cam_'), points_of(pts3d, ids), rvec(six), tvec(six))
    k.ret(mean_distance(k.f('pts_2d_'), pred))

@contract(M + 'BoardObs::computeReprojectionError', 'C13')
def _(k): own_error(k, k.f('pts_3d_', k.f('board_3d_'), 'Board'), k.f('charuco_id_'))

@contract(M + 'Object3DObs::computeReprojectionError', 'C13')
def _(k): own_error(k, k.f('pts_3d_', k.f('object_3d_'), 'Object3D'), k.f('pts_id_'))

def distances(obs, pred):
    b = bvar('k', 'I')
    return loops.finish(default('M'), [(((b, drange(I(0), vlen(pred))),), TRUE, 'mpushrow', (pixel_distance(vget(obs, b), vget(pred, b)),))])

@contract(M + 'Calibration::computeDistanceBetweenPoints', 'C13')
def _(k): k.ret(distances(k.arg(0), k.arg(1)))

def predicted_in_group(k, g, go, o):
    """image of the points of an object observation: object pose in the group, then pose of the seeing camera"""
    obj = k.f('object_3d_', o, 'Object3DObs')
    six = mget(k.f('object_pose_', go, 'CameraGroupObs'), k.f('object_3d_id_', o, 'Object3DObs'))
    R, t = rodr(rvec(six)), tvec(six)
    ids, tab = k.f('pts_id_', o, 'Object3DObs'), k.f('pts_3d_', obj, 'Object3D')
    pts = collect(tab.sort[1], drange(I(0), vlen(ids)), lambda b: moved(R, t, vget(tab, vget(ids, b))))
    c = mget(k.f('relative_camera_pose_', g, 'CameraGroup'), k.f('camera_id_', o, 'Object3DObs'))
    return seen_by(k, k.f('cam_', o, 'Object3DObs'), pts, rvec(c), tvec(c))

@contract(M + 'Calibration::computeAvgReprojectionError', 'C13')
def _(k):
    k.var('sum', Rl(0)); k.var('n', I(0))
    def group(k, key, g):
        me = k.f('cam_group_idx_', g, 'CameraGroup')
        def frame(k, key, fr):
            def gobs(k, key, go):
                def obs(k, key, o):
                    e = distances(k.f('pts_2d_', o, 'Object3DObs'), predicted_in_group(k, g, go, o))
                    k.let('sum', add(k.get('sum'), sel(mkraw('cv::mean', (e,), ('arr', 4, 'R')), 0)))
                    k.let('n', add(k.get('n'), I(1)))
                k.when(eq(me, k.f('cam_group_idx_', go, 'CameraGroupObs')), lambda k: k.over(k.f('object_observations_', go, 'CameraGroupObs'), obs))
            k.over(k.f('cam_group_observations_', fr, 'Frame'), gobs)
        k.over(k.f('frames_', g, 'CameraGroup'), frame)
    k.over(k.f('cam_group_'), group)
    k.ret(rdiv(k.get('sum'), toreal(k.get('n'))))

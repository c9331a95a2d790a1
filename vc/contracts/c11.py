"""C11: object poses in a camera group are expressed in its reference camera"""
from .base import *
from .c04 import avg_rotation
M = 'McCalib::'
OO, GO = 'Object3DObs', 'CameraGroupObs'

@contract(M + 'CameraGroup::computeObjPoseInCameraGroup', 'C11')
def _(k):
    me = k.f('cam_group_idx_')
    def frame(k, key, fr):
        def group(k, key, go):
            def obs(k, key, o):
                cam = camera_pose(k, k.this, k.f('camera_id_', o, OO))
                k.setf('group_pose_', V6(mmul(minv(cam), obs_pose(k, OO, o))), o, OO)
            k.when(eq(me, k.f('cam_group_idx_', go, GO)), lambda k: k.over(k.f('object_observations_', go, GO), obs))
        k.over(k.f('cam_group_observations_', fr, 'Frame'), group)
    k.over(k.f('frames_'), frame)

def last_index(n, p):
    b = bvar('k', 'I')
    return dexists(drange(I(0), n), lam(b, p(b))), mkraw('last', (drange(I(0), n), lam(b, p(b))), 'I')

@contract(M + 'CameraGroupObs::computeObjectsPose', 'C11')
def _(k):
    ids, table = k.f('object_idx_'), k.f('object_observations_')
    ref = k.f('id_ref_cam_', k.f('cam_group_'), 'CameraGroup')
    uniq = mkraw('vuniq', (ids,), ids.sort)
    i, j = bvar('k', 'I'), bvar('k', 'I')
    seen = loops.finish(mnil('I', ('vec', 'I')), [(((i, drange(I(0), vlen(uniq))), (j, drange(I(0), vlen(ids)))),
        eq(vget(ids, j), vget(uniq, i)), 'at:push', (vget(uniq, i), j))])
    def one(k, obj, views):
        n = vlen(views)
        o = lambda b: mget(table, vget(views, b))
        pose = lambda b: k.f('group_pose_', o(b), OO)
        found, b = last_index(n, lambda b: eq(k.f('camera_id_', o(b), OO), ref))
        rv = [collect('R', drange(I(0), n), lambda b: sel(pose(b), x)) for x in range(3)]
        x = bvar('k', 'I')
        sumt = loops.finish(vec3(*[Rl(0)] * 3), [(((x, drange(I(0), n)),), TRUE, 'madd', (tvec(pose(x)),))])
        avg = V33(avg_rotation(k, *rv, k.f('quaternion_averaging_')), mscale(sumt, rinv(toreal(n))))
        p = mk(P6, *[ite(found, sel(pose(b), c), sel(avg, c)) for c in range(6)])
        k.put('object_pose_', obj, p)
        k.over(views, lambda k, key, v: k.setf('group_pose_', p, mget(table, v), OO))
    k.over(seen, one)

@contract(M + 'CameraGroupObs::updateObjObsPose', 'C11')
def _(k):
    def obs(k, key, o):
        k.setf('group_pose_', mget(k.f('object_pose_'), k.f('object_3d_id_', o, OO)), o, OO)
    k.over(k.f('object_observations_'), obs)

@contract(M + 'Calibration::computeAllObjPoseInCameraGroup', 'C11')
def _(k):
    k.over(k.f('cam_group_'), lambda k, key, g: k.call(M + 'CameraGroup::computeObjPoseInCameraGroup', g))
    k.over(k.f('cams_group_obs_'), lambda k, key, g: k.call(M + 'CameraGroupObs::computeObjectsPose', g))

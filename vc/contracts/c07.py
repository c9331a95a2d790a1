"""C07: which residuals a refinement minimises, and over which parameter blocks"""
from .base import *
import libext
from libext import address
M = 'McCalib::'
OO, GO, BO = 'Object3DObs', 'CameraGroupObs', 'BoardObs'

def xyz(p): return [sel(p, i) for i in range(3)]
def uv(p): return [sel(p, i) for i in range(2)]
def lens(k, cam):
    """fx fy u0 v0 k1 k2 k3 p1 p2 of a camera"""
    v = k.f('intrinsics_', cam, 'Camera')
    return [sel(v, i) for i in (0, 1, 2, 3, 4, 5, 8, 6, 7)]
def add_residual(k, functor, args, *blocks):
    cost = mkraw('cost', ('ReprojectionError' + functor,) + tuple(args), 'Ref')
    k.let('problem', vpush(k.get('problem'), libext.residual_block(k.ex, cost, *blocks)))
def model(k, cam): return k.f('distortion_model_', cam, 'Camera')

def refine_intrinsics(k):
    k.var('problem', vnil('Ref'))
    def board(k, key, o):
        brd = k.f('board_3d_', o, BO)
        ids, obs = k.f('charuco_id_', o, BO), k.f('pts_2d_', o, BO)
        def point(k, i):
            x = vget(k.f('pts_3d_', brd, 'Board'), vget(ids, i))
            add_residual(k, '', uv(vget(obs, i)) + xyz(x) + [model(k, k.this)],
                         address(M + BO, 'pose_', o), address(M + 'Camera', 'intrinsics_', k.this))
        k.when(k.f('valid_', o, BO), lambda k: k.each(drange(I(0), vlen(ids)), point))
    k.over(k.f('board_observations_'), board)
    libext.solve(k.ex, k.st, k.get('problem'))

@contract(M + 'Camera::refineIntrinsicCalibration', 'C07')
def _(k): refine_intrinsics(k)

@contract(M + 'Object3D::refineObject', ['C07', 'C08'])
def _(k):
    from .c08 import move_points
    k.var('problem', vnil('Ref'))
    def obs(k, key, oo):
        def board(k, key, o):
            brd, cam, b = k.f('board_3d_', o, BO), k.f('cam_', o, BO), k.f('board_id_', o, BO)
            ids, pts = k.f('charuco_id_', o, BO), k.f('pts_2d_', o, BO)
            def point(k, i):
                x = vget(k.f('pts_3d_', brd, 'Board'), vget(ids, i))
                add_residual(k, '_3DObjRef', uv(vget(pts, i)) + xyz(x) + lens(k, cam) + [ne(k.f('ref_board_id_'), b), model(k, cam)],
                             address(M + OO, 'pose_', oo), address(M + 'Object3D', 'relative_board_pose_', k.this, b))
            k.when(k.f('valid_', o, BO), lambda k: k.each(drange(I(0), vlen(ids)), point))
        k.over(k.f('board_observations_', oo, OO), board)
    k.over(k.f('object_observations_'), obs)
    libext.solve(k.ex, k.st, k.get('problem'))
    move_points(k)

def group_problem(k, per_point):
    """residuals over every object observation of every frame that belongs to this camera group"""
    k.var('problem', vnil('Ref'))
    me = k.f('cam_group_idx_')
    def frame(k, key, fr):
        def group(k, key, go):
            def obs(k, key, o):
                cam, obj = k.f('cam_', o, OO), k.f('object_3d_', o, OO)
                refine = ne(k.f('id_ref_cam_'), k.f('cam_idx_', cam, 'Camera'))
                ids, pts = k.f('pts_id_', o, OO), k.f('pts_2d_', o, OO)
                blocks = [address(M + 'CameraGroup', 'relative_camera_pose_', k.this, k.f('camera_id_', o, OO)),
                          address(M + GO, 'object_pose_', go, k.f('object_3d_id_', o, OO))]
                k.each(drange(I(0), vlen(ids)), lambda k, i: per_point(k, cam, obj, refine, vget(ids, i), vget(pts, i), blocks))
            k.when(eq(me, k.f('cam_group_idx_', go, GO)), lambda k: k.over(k.f('object_observations_', go, GO), obs))
        k.over(k.f('cam_group_observations_', fr, 'Frame'), group)
    k.over(k.f('frames_'), frame)
    libext.solve(k.ex, k.st, k.get('problem'))

@contract(M + 'CameraGroup::refineCameraGroup', 'C07')
def _(k):
    def point(k, cam, obj, refine, i, p, blocks):
        x = vget(k.f('pts_3d_', obj, 'Object3D'), i)
        add_residual(k, '_CameraGroupRef', uv(p) + xyz(x) + lens(k, cam) + [refine, model(k, cam)], *blocks)
    group_problem(k, point)

def board_point(k, obj, i):
    """board an object point belongs to, its coordinates on that board, and whether the pose of the board is refined"""
    e = vget(k.f('pts_obj_2_board_', obj, 'Object3D'), i)
    b = sel(e, 0)
    x = vget(k.f('pts_3d_', mget(k.f('boards_', obj, 'Object3D'), b), 'Board'), sel(e, 1))
    return b, x, ne(k.f('ref_board_id_', obj, 'Object3D'), b)

@contract(M + 'CameraGroup::refineCameraGroupAndObjects', 'C07')
def _(k):
    def point(k, cam, obj, refine, i, p, blocks):
        b, x, rb = board_point(k, obj, i)
        add_residual(k, '_CameraGroupAndObjectRef', uv(p) + xyz(x) + lens(k, cam) + [refine, rb, model(k, cam)], *blocks,
                     address(M + 'Object3D', 'relative_board_pose_', obj, b))
    group_problem(k, point)

@contract(M + 'CameraGroup::refineCameraGroupAndObjectsAndIntrinsics', 'C07')
def _(k):
    def point(k, cam, obj, refine, i, p, blocks):
        b, x, rb = board_point(k, obj, i)
        add_residual(k, '_CameraGroupAndObjectRefAndIntrinsics', uv(p) + xyz(x) + [refine, rb, model(k, cam)], *blocks,
                     address(M + 'Object3D', 'relative_board_pose_', obj, b), address(M + 'Camera', 'intrinsics_', cam))
    group_problem(k, point)

def all_of(field, cls, fn):
    def body(k): k.over(k.f(field), lambda k, key, x: k.call(M + cls + '::' + fn, x, k.f('nb_iterations_')))
    return body
def refresh(k):
    """after the board poses changed: object points, then the poses of the object observations"""
    k.over(k.f('object_3d_'), lambda k, key, o: k.call(M + 'Object3D::updateObjectPts', o))
    k.over(k.f('cams_group_obs_'), lambda k, key, g: k.call(M + GO + '::updateObjObsPose', g))
contract(M + 'Calibration::refineIntrinsicAndPoseAllCam', 'C07')(all_of('cams_', 'Camera', 'refineIntrinsicCalibration'))
contract(M + 'Calibration::refineAllObject3D', ['C07', 'C08'])(all_of('object_3d_', 'Object3D', 'refineObject'))
@contract(M + 'Calibration::refineAllCameraGroup', 'C07')
def _(k):
    all_of('cam_group_', 'CameraGroup', 'refineCameraGroup')(k)
    k.over(k.f('cams_group_obs_'), lambda k, key, g: k.call(M + GO + '::updateObjObsPose', g))
@contract(M + 'Calibration::refineAllCameraGroupAndObjects', ['C07', 'C08', 'C11'])
def _(k):
    all_of('cam_group_', 'CameraGroup', 'refineCameraGroupAndObjects')(k)
    refresh(k)
@contract(M + 'Calibration::refineAllCameraGroupAndObjectsAndIntrinsic', ['C07', 'C08', 'C11'])
def _(k):
    all_of('cam_group_', 'CameraGroup', 'refineCameraGroupAndObjectsAndIntrinsics')(k)
    refresh(k)

# intrinsics requested fixed are never handed to a refinement; results are saved once, after the last refinement
CAL = M + 'Calibration::'
def cal(*names): return tuple(CAL + n for n in names)
def trace(ordered, apart=()): return (CAL,), cal(*ordered, *apart), cal(*apart)
@contract(CAL + 'initIntrinsic', 'C07', use=False, trace=trace(('initializeCalibrationAllCam', 'estimatePoseAllBoards', 'refineIntrinsicAndPoseAllCam', 'refineAllCameraGroupAndObjectsAndIntrinsic')))
def _(k):
    for f in cal('initializeCalibrationAllCam', 'estimatePoseAllBoards'): k.calls(f)
    k.when(eq(k.f('fix_intrinsic_'), I(0)), lambda k: k.calls(CAL + 'refineIntrinsicAndPoseAllCam'))
SAVES = ('saveCamerasParams', 'save3DObj', 'save3DObjPose', 'saveReprojectionErrorToFile', 'saveDetectedKeypoints')
@contract('runCalibrationWorkflow', ['C07', 'C19'], use=False, trace=trace(('refineAllCameraGroupAndObjects', 'refineAllCameraGroupAndObjectsAndIntrinsic', 'refineIntrinsicAndPoseAllCam'), SAVES))
def _(k):
    c = k.ex.alloc(k.st, M + 'Calibration')
    k.calls(CAL + 'refineAllCameraGroupAndObjects')
    k.when(eq(k.f('fix_intrinsic_', c, 'Calibration'), I(0)), lambda k: k.calls(CAL + 'refineAllCameraGroupAndObjectsAndIntrinsic'))
    for f in cal(*SAVES): k.calls(f, apart=True)

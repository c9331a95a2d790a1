"""C19: the saved files describe the computed calibration"""
from .base import *
import libext
from libext import opened, node, fsread
from .c13 import predicted_in_group, distances
from .c05 import Kmat, dist
from .c16 import option
M = 'McCalib::'
join = lambda a, b: mkraw('pathjoin', (a, b), 'S')
numbered = lambda name, i: lib_.scat(S(name), mkraw('tostr', (i,), 'S'))

class Out:
    """a file written from the beginning"""
    def __init__(self, k, path): self.path = path; libext.fopen(k.ex, k.st, path, I(1))
    def __call__(self, k, *xs):
        for x in xs: libext.effect(k.ex, k.st, 'write', opened(self.path, I(1)), S(x) if isinstance(x, str) else x)

@contract(M + 'Calibration::saveCamerasParams', 'C19')
def _(k):
    """number of cameras; then, for each camera of each group: intrinsics, distortion, group, image size, pose in the group (camera to group)"""
    n, d = k.f('camera_params_file_name_'), k.f('save_path_')
    out = Out(k, ite(eq(n, S('')), join(d, S('calibrated_cameras_data.yml')), join(d, n)))
    out(k, 'nb_camera', k.f('nb_camera_'))
    def group(k, g, ref):
        def camera(k, key, c):
            f = lambda n: k.f(n, c, 'Camera')
            v, m, i = f('intrinsics_'), f('distortion_model_'), f('cam_idx_')
            out(k, numbered('camera_', i), '{', 'camera_matrix', Kmat(v), 'distortion_vector', dist(v, m), 'distortion_type', m, 'camera_group', g,
                'img_width', f('im_cols_'), 'img_height', f('im_rows_'), 'camera_pose_matrix', minv(camera_pose(k, ref, i)), '}')
        k.over(k.f('cameras_', ref, 'CameraGroup'), camera)
    k.over(k.f('cam_group_'), group)

@contract(M + 'Calibration::save3DObj', 'C19')
def _(k):
    """for each object, one column per point of each of its boards: X Y Z, board, point of the board"""
    out = Out(k, join(k.f('save_path_'), S('calibrated_objects_data.yml')))
    def obj(k, key, o):
        f = lambda n: k.f(n, o, 'Object3D')
        out(k, numbered('object_', f('obj_id_')))
        k.var('m', mkraw('mundef', (I(5), f('nb_pts_'), I(5)), 'M')); k.var('col', I(0))
        def board(k, key, b):
            bid = k.f('board_id_', b, 'Board')
            def point(k, i):
                key = mk(('st', 'pair', 'I', 'I'), bid, i)
                p = vget(f('pts_3d_'), mget(f('pts_board_2_obj_'), key))
                setcol(k, [sel(p, 0), sel(p, 1), sel(p, 2), toreal(bid), toreal(i)])
            k.each(drange(I(0), k.f('nb_pts_', b, 'Board')), point)
        k.over(f('boards_'), board)
        out(k, '{', 'points', k.get('m'), '}')
    k.over(k.f('object_3d_'), obj)

def setcol(k, xs):
    """fills the next column of the matrix"""
    m, c = k.get('m'), k.get('col')
    for r, x in enumerate(xs): m = tm.mset(m, I(r), c, x)
    k.let("m", m)
    k.let('col', add(c, I(1)))

@contract(M + 'Calibration::save3DObjPose', 'C19')
def _(k):
    """for each object, one column per observation of it: rotation and translation vectors"""
    out = Out(k, join(k.f('save_path_'), S('calibrated_objects_pose_data.yml')))
    def obj(k, key, o):
        out(k, numbered('object_', k.f('obj_id_', o, 'Object3D')), '{')
        l = k.f('object_observations_', o, 'Object3D')
        k.var('m', mkraw('mundef', (I(6), msize(l), I(6)), 'M')); k.var('col', I(0))
        def obs(k, key, ob):
            p = k.f('pose_', ob, 'Object3DObs')
            setcol(k, [sel(p, i) for i in range(6)])
        k.over(l, obs)
        out(k, 'poses', k.get('m'), '}')
    k.over(k.f('object_3d_'), obj)

@contract(M + 'Calibration::saveDetectedKeypoints', 'C19')
def _(k):
    """per camera: image size; frame, image path, board, corners and corner identifiers of each observation, frame by frame and board by board"""
    out = Out(k, join(k.f('save_path_'), S('detected_keypoints_data.yml')))
    out(k, 'nb_camera', msize(k.f('cams_')))
    names = ('frame_idxs', 'frame_paths', 'board_idxs', 'pts_2d', 'charuco_idxs')
    def camera(k, key, c):
        me = k.f('cam_idx_', c, 'Camera')
        out(k, numbered('camera_', me), '{', 'img_width', k.f('im_cols_', c, 'Camera'), 'img_height', k.f('im_rows_', c, 'Camera'))
        for n, so in zip(names, ('I', 'S', 'I', k.sort('BoardObs', 'pts_2d_'), ('vec', 'I'))): k.var(n, vnil(so))
        def frame(k, key, fr):
            i = k.f('frame_idx_', fr, 'Frame')
            path = mget(k.f('frame_path_', fr, 'Frame'), me)
            def board(k, b, ref):
                def obs(k, key, o):
                    f = lambda n: k.f(n, o, 'BoardObs')
                    def rec(k):
                        for n, x in zip(names, (i, path, b, f('pts_2d_'), f('charuco_id_'))): k.let(n, vpush(k.get(n), x))
                    k.when(and_(eq(me, f('camera_id_')), eq(i, f('frame_id_')), eq(b, f('board_id_'))), rec)
                k.over(k.f('board_observations_'), obs)
            k.over(k.f('boards_3d_'), board)
        k.over(k.f('frames_'), frame)
        for n in names: out(k, n, k.get(n))
        out(k, '}')
    k.over(k.f('cams_'), camera)

@contract(M + 'Calibration::loadDetectedKeypoints', 'C19')
def _(k):
    """every recorded detection is entered again"""
    f = opened(k.f('keypoints_path_'), I(0))
    def camera(k, c):
        sec = node(f, numbered('camera_', c))
        rd = lambda n, so: fsread(node(sec, S(n)), so)
        cam = mget(k.f('cams_'), c)
        k.setf('im_cols_', rd('img_width', 'I'), cam, 'Camera'); k.setf('im_rows_', rd('img_height', 'I'), cam, 'Camera')
        idx = rd('frame_idxs', ('vec', 'I'))
        P2s = k.sort('BoardObs', 'pts_2d_')
        def one(k, i):
            at_ = lambda n, so: vget(rd(n, ('vec', so)), i)
            k.call(M + 'Calibration::insertNewBoard', k.this, c, vget(idx, i), at_('board_idxs', 'I'), at_('pts_2d', P2s), at_('charuco_idxs', ('vec', 'I')), at_('frame_paths', 'S'))
        k.each(drange(I(0), vlen(idx)), one)
    k.each(drange(I(0), k.f('nb_camera_')), camera)

@contract(M + 'Calibration::saveReprojectionErrorToFile', 'C19')
def _(k):
    """per group and frame of the group: per observation of the group its camera, number of points and distances; cameras of the frame; frames of the group"""
    out = Out(k, join(k.f('save_path_'), S('reprojection_error_data.yml')))
    out(k, 'nb_camera_group', msize(k.f('cam_group_')))
    push = lambda k, n, x: k.let(n, mkraw('mpushrow', (k.get(n), x), 'M'))
    def group(k, key, g):
        me = k.f('cam_group_idx_', g, 'CameraGroup')
        out(k, numbered('camera_group_', me), '{')
        k.var('frames', default('M'))
        def frame(k, key, fr):
            i = k.f('frame_idx_', fr, 'Frame')
            out(k, numbered('frame_', i), '{')
            push(k, 'frames', i)
            k.var('cams', default('M'))
            def gobs(k, key, go):
                def obs(k, key, o):
                    c = k.f('camera_id_', o, 'Object3DObs')
                    push(k, 'cams', c)
                    ids = k.f('pts_id_', o, 'Object3DObs')
                    out(k, numbered('camera_', c), '{', 'nb_pts', vlen(ids), 'error_list', distances(k.f('pts_2d_', o, 'Object3DObs'), predicted_in_group(k, g, go, o)), '}')
                k.when(eq(me, k.f('cam_group_idx_', go, 'CameraGroupObs')), lambda k: k.over(k.f('object_observations_', go, 'CameraGroupObs'), obs))
            k.over(k.f('cam_group_observations_', fr, 'Frame'), gobs)
            out(k, 'camera_list', k.get('cams'), '}')
        k.over(k.f('frames_', g, 'CameraGroup'), frame)
        out(k, 'frame_list', k.get('frames'), '}')
    k.over(k.f('cam_group_'), group)

"""C12: every detection is recorded once, everywhere it belongs"""
from .base import *
M = 'McCalib::'

def append(k, ref, cls, fmap, x, fidx=None, idx=None):
    """x goes under the next free identifier of the map, its index at the end of the parallel list"""
    m = k.f(fmap, ref, cls)
    k.put(fmap, msize(m), x, ref, cls)
    if fidx: k.push(fidx, idx, ref, cls)

def inserter(name, fmap, fidx=None, idxcls=None, idxf=None, extra=None):
    cls = name.split('::')[0]
    @contract(M + name, 'C12')
    def _(k):
        o = k.arg(0)
        append(k, k.this, cls, fmap, o, fidx, k.f(idxf, o, idxcls) if idxf else None)
        if extra: extra(k, o)

inserter('Board::insertNewBoard', 'board_observations_')
inserter('Camera::insertNewBoard', 'board_observations_', 'vis_board_idx_', 'BoardObs', 'board_id_')
inserter('Camera::insertNewObject', 'object_observations_', 'vis_object_idx_', 'Object3DObs', 'object_3d_id_')
inserter('Frame::insertNewBoard', 'board_observations_', 'boards_idx_', 'BoardObs', 'board_id_')
inserter('Frame::insertNewObject', 'object_observations_', 'objects_idx_', 'Object3DObs', 'object_3d_id_')
inserter('Frame::insertNewCamObs', 'cam_obs_', 'cam_idx_', 'CameraObs', 'cam_idx_')
inserter('CameraObs::insertNewBoard', 'board_observations_', 'board_idx_', 'BoardObs', 'board_id_',
         extra=lambda k, o: k.setf('cam_idx_', k.f('camera_id_', o, 'BoardObs')))
inserter('CameraObs::insertNewObject', 'object_observations_', 'object_idx_', 'Object3DObs', 'object_3d_id_')
inserter('Object3D::insertNewObject', 'object_observations_')
inserter('CameraGroup::insertNewObjectObservation', 'object_observations_')
inserter('CameraGroupObs::insertObjectObservation', 'object_observations_', 'object_idx_', 'Object3DObs', 'object_3d_id_')
inserter('Calibration::insertNewObjectObservation', 'object_observations_')

@contract(M + 'Frame::insertNewCameraGroupObs', 'C12')
def _(k):
    append(k, k.this, 'Frame', 'cam_group_observations_', k.arg(0), 'cam_group_idx_', k.arg(1))

def by_frame(cls):
    @contract(M + cls + '::insertNewFrame', 'C12')
    def _(k): k.put('frames_', k.f('frame_idx_', k.arg(0), 'Frame'), k.arg(0))
for c in ('Board', 'Camera', 'Object3D', 'CameraGroup'): by_frame(c)

@contract(M + 'CameraGroup::insertCamera', 'C12')
def _(k):
    c = k.arg(0); i = k.f('cam_idx_', c, 'Camera')
    k.put('cameras_', i, c); k.push('cam_idx', i)

@contract(M + 'Object3D::insertBoardInObject', ['C12', 'C08'])
def _(k):
    b = k.arg(0)
    k.put('boards_', k.f('board_id_', b, 'Board'), b)
    k.setf('nb_pts_', add(k.f('nb_pts_'), k.f('nb_pts_', b, 'Board')))

@contract(M + 'Object3DObs::insertNewBoardObs', ['C12', 'C08'])
def _(k):
    o = k.arg(0); f = lambda n: k.f(n, o, 'BoardObs')
    append(k, k.this, 'Object3DObs', 'board_observations_', o, 'board_id_', f('board_id_'))
    k.setf('cam_', f('cam_')); k.setf('camera_id_', f('camera_id_')); k.setf('frame_id_', f('frame_id_'))
    p, c, b = f('pts_2d_'), f('charuco_id_'), f('board_id_')
    tab = k.f('pts_board_2_obj_', k.f('object_3d_'), 'Object3D')
    dom = drange(I(0), vlen(p))
    k.setf('pts_2d_', collect(p.sort[1], dom, lambda i: vget(p, i), base=k.f('pts_2d_')))
    k.setf('pts_id_', collect('I', dom, lambda i: mget(tab, pair(b, vget(c, i))), base=k.f('pts_id_')))

# ------------------------------------------------------------ constructors
@contract(M + 'BoardObs::BoardObs', 'C12')
def _(k):
    for i, f in enumerate(['camera_id_', 'frame_id_', 'board_id_', 'pts_2d_', 'charuco_id_', 'cam_', 'board_3d_']): k.setf(f, k.arg(i))
    k.setf('valid_', TRUE); k.setf('pose_', undef(k, 'BoardObs', 'pose_'))

def undef(k, cls, f, ref=None): return mkraw('undef', (fullcls(cls), f, k.this if ref is None else ref), k.sort(cls, f))
def fresh_fields(k, cls, given):
    """a new object: the given fields, the in-class initialisers, empty containers elsewhere"""
    for f, t, init in k.ex.prog.records[fullcls(cls)]:
        if f in given: k.setf(f, given[f])
        else:
            so = k.sort(cls, f)
            k.setf(f, default(so) if so not in ('I', 'R', 'B') and so[0] != 'arr' else undef(k, cls, f))

@contract(M + 'Frame::Frame', 'C12')
def _(k):
    p = k.sort('Frame', 'frame_path_')
    fresh_fields(k, 'Frame', {'frame_idx_': k.arg(0), 'frame_path_': mput(mnil(p[1], p[2]), k.arg(1), k.arg(2))})

@contract(M + 'CameraObs::CameraObs', 'C12')
def _(k):
    fresh_fields(k, 'CameraObs', {'cam_idx_': I(0)})
    k.call(M + 'CameraObs::insertNewBoard', k.this, k.arg(0))

@contract(M + 'Object3DObs::Object3DObs', 'C12')
def _(k): fresh_fields(k, 'Object3DObs', {'object_3d_': k.arg(0), 'object_3d_id_': k.arg(1), 'valid_': TRUE})

@contract(M + 'CameraGroupObs::CameraGroupObs', 'C12')
def _(k): fresh_fields(k, 'CameraGroupObs', {'cam_group_': k.arg(0), 'cam_group_idx_': k.f('cam_group_idx_', k.arg(0), 'CameraGroup'), 'quaternion_averaging_': k.arg(1)})

@contract(M + 'CameraGroup::CameraGroup', ['C12', 'C09'])
def _(k): fresh_fields(k, 'CameraGroup', {'id_ref_cam_': k.arg(0), 'cam_group_idx_': k.arg(1), 'nb_cams_': I(0)})

@contract(M + 'Object3D::Object3D', ['C12', 'C09'])
def _(k): fresh_fields(k, 'Object3D', {'nb_boards_': k.arg(0), 'ref_board_id_': k.arg(1), 'obj_id_': k.arg(2), 'color_': k.arg(3), 'nb_pts_': I(0)})

@contract(M + 'Calibration::insertNewBoard', 'C12')
def _(k):
    cam, frame, board, pts, ids, path = [k.arg(i) for i in range(6)]
    C, B = mget(k.f('cams_'), cam), mget(k.f('boards_3d_'), board)
    o = k.new('BoardObs', cam, frame, board, pts, ids, C, B)
    append(k, k.this, 'Calibration', 'board_observations_', o)
    k.call(M + 'Camera::insertNewBoard', C, o)
    k.call(M + 'Board::insertNewBoard', B, o)
    fr = k.f('frames_')
    def old(k):
        F = mget(fr, frame)
        k.call(M + 'Frame::insertNewBoard', F, o)
        k.put('frame_path_', cam, path, F, 'Frame')
    def new(k):
        F = k.new('Frame', frame, cam, path)
        k.put('frames_', frame, F)
        k.call(M + 'Frame::insertNewBoard', F, o)
        k.call(M + 'Camera::insertNewFrame', C, F)
        k.call(M + 'Board::insertNewFrame', B, F)
    k.when(mhas(fr, frame), old, new)
    co = k.f('cams_obs_'); key = pair(cam, frame)
    def have(k): k.call(M + 'CameraObs::insertNewBoard', mget(co, key), o)
    def make(k):
        x = k.new('CameraObs', o)
        k.put('cams_obs_', key, x)
        k.call(M + 'Frame::insertNewCamObs', mget(k.f('frames_'), frame), x)
    k.when(mhas(co, key), have, make)

@contract(M + 'Calibration::init3DObjectObs', 'C12')
def _(k):
    oi = k.arg(0)
    obj = mget(k.f('object_3d_'), oi)
    boards = k.f('boards_', obj, 'Object3D')
    frames, cams = k.f('frames_'), k.f('cams_')
    def per_view(k, key, co):
        x = k.new('Object3DObs', obj, oi)
        def per_board(k, i, bo):
            k.when(mhas(boards, k.f('board_id_', bo, 'BoardObs')), lambda k: k.call(M + 'Object3DObs::insertNewBoardObs', x, bo))
        k.over(k.f('board_observations_', co, 'CameraObs'), per_board)
        def link(k):
            F = mget(frames, sel(key, 1))
            k.call(M + 'CameraObs::insertNewObject', co, x)
            k.call(M + 'Frame::insertNewObject', F, x)
            k.call(M + 'Camera::insertNewObject', mget(cams, sel(key, 0)), x)
            k.call(M + 'Object3D::insertNewObject', obj, x)
            k.call(M + 'Object3D::insertNewFrame', obj, F)
            k.call(M + 'Calibration::insertNewObjectObservation', k.this, x)
        k.when(lt(I(0), vlen(k.f('pts_id_', x, 'Object3DObs'))), link)
    k.over(k.f('cams_obs_'), per_view)

@contract(M + 'Calibration::initAll3DObjectObs', 'C12')
def _(k): k.over(k.f('object_3d_'), lambda k, i, o: k.call(M + 'Calibration::init3DObjectObs', k.this, i))

@contract(M + 'Calibration::initCameraGroupObs', 'C12')
def _(k):
    gi = k.arg(0)
    grp = mget(k.f('cam_group_'), gi)
    cams = k.f('cam_idx', grp, 'CameraGroup')
    qa, frames = k.f('quaternion_averaging_'), k.f('frames_')
    def per_frame(k, fi, F):
        x = k.new('CameraGroupObs', grp, qa)
        fid = k.f('frame_idx_', F, 'Frame')
        def per_obj(k, i, o):
            c = k.f('camera_id_', o, 'Object3DObs')
            def member(k):
                k.call(M + 'CameraGroupObs::insertObjectObservation', x, o)
                k.call(M + 'CameraGroup::insertNewObjectObservation', grp, o)
            k.when(exists(drange(I(0), vlen(cams)), lambda j: eq(vget(cams, j), c)), member)
        k.over(k.f('object_observations_', F, 'Frame'), per_obj)
        def link(k):
            k.put('cams_group_obs_', pair(gi, fid), x)
            G = mget(frames, fid)
            k.call(M + 'Frame::insertNewCameraGroupObs', G, x, gi)
            k.call(M + 'CameraGroup::insertNewFrame', grp, G)
        k.when(lt(I(0), msize(k.f('object_observations_', x, 'CameraGroupObs'))), link)
    k.over(frames, per_frame)

@contract(M + 'Calibration::initAllCameraGroupObs', 'C12')
def _(k): k.over(k.f('cam_group_'), lambda k, i, g: k.call(M + 'Calibration::initCameraGroupObs', k.this, k.f('cam_group_idx_', g, 'CameraGroup')))

def clear(k, o, cls, *fs):
    for f in fs: k.setf(f, default(k.sort(cls, f)), o, cls)

@contract(M + 'Calibration::mergeAllCameraGroupObs', 'C12')
def _(k):
    k.over(k.f('frames_'), lambda k, i, F: clear(k, F, 'Frame', 'cam_group_idx_', 'cam_group_observations_'))
    clear(k, k.this, 'Calibration', 'cams_group_obs_')
    k.call(M + 'Calibration::initAllCameraGroupObs', k.this)

@contract(M + 'Calibration::mergeAllObjectObs', 'C12')
def _(k):
    for m, cls, fs in [('cams_', 'Camera', ['vis_object_idx_', 'object_observations_']), ('cam_group_', 'CameraGroup', ['vis_object_idx_', 'object_observations_']),
                       ('cams_group_obs_', 'CameraGroupObs', ['object_idx_', 'object_observations_']), ('cams_obs_', 'CameraObs', ['object_idx_', 'object_observations_']),
                       ('frames_', 'Frame', ['objects_idx_', 'object_observations_']), ('object_3d_', 'Object3D', ['object_observations_'])]:
        k.over(k.f(m), lambda k, i, o: clear(k, o, cls, *fs))
    clear(k, k.this, 'Calibration', 'object_observations_')
    k.call(M + 'Calibration::initAll3DObjectObs', k.this)

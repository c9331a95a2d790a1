"""C08/C09: objects and camera groups are built from, and merged along, chained relative poses,
and the point tables of objects are mutually inverse (each push onto the object->board table is
recorded in the board->object table under the position it was pushed to)"""
from .base import *
from .c02 import moved
M = 'McCalib::'
EYE = lambda: mat(M44, [Rl(1 if i % 5 == 0 else 0) for i in range(16)])

def smallest(v): return vget(v, mkraw('argmin', (v, I(0), vlen(v)), 'I'))

def chained(k, path, rel, op):
    """product of the relative poses of consecutive elements of a path, identity for a path of one"""
    b = bvar('k', 'I')
    step = lambda b: mget(rel, pair(vget(path, b), vget(path, add(b, I(1)))))
    x = step(b)
    prod = loops.finish(EYE(), [(((b, drange(I(0), sub(vlen(path), I(1)))),), TRUE, op, (minv(x) if op == 'mulR' else x,))])
    return ite(lt(I(0), vlen(path)), prod, EYE())

def components(k, graph):
    g = sub_object(k, graph)
    return g, k.call('Graph::connectedComponents', g)

def add_points(k, obj, board_id, board, pose):
    """the points of a board, moved by its pose in the object, are appended under the next identifiers"""
    pts = k.f('pts_3d_', board, 'Board')
    six = V6(pose)
    R, t = rodr(rvec(six)), tvec(six)
    dom = drange(I(0), vlen(pts))
    n0 = k.get('count')
    def one(k, i):
        key = pair(board_id, i)
        k.put('pts_board_2_obj_', key, add(n0, i), obj, 'Object3D')
        k.push('pts_obj_2_board_', key, obj, 'Object3D')
        k.push('pts_3d_', moved(R, t, vget(pts, i)), obj, 'Object3D')
    k.each(dom, one)
    k.let('count', add(n0, vlen(pts)))

@contract(M + 'Calibration::init3DObjects', ['C08', 'C09'], shapes={})
def _(k):
    g, comps = components(k, 'covis_boards_graph_')
    def one(k, i, comp):
        ref = smallest(comp)
        boards, rel = k.f('boards_3d_'), k.f('inter_board_transform_')
        o = k.new('Object3D', vlen(comp), ref, i, k.f('color_', mget(boards, ref), 'Board'))
        k.let('count', I(0))
        def member(k, j, b):
            board = mget(boards, b)
            k.call(M + 'Object3D::insertBoardInObject', o, board)
            path = k.call('Graph::shortestPathBetween', g, ref, b)
            pose = chained(k, path, rel, 'mulR')
            k.put('relative_board_pose_', b, V6(pose), o, 'Object3D')
            add_points(k, o, b, board, pose)
        k.over(comp, member)
        k.put('object_3d_', i, o)
    k.var('count', I(0))
    k.over(comps, one)

@contract(M + 'Calibration::initCameraGroup', 'C09')
def _(k):
    g, comps = components(k, 'covis_camera_graph_')
    def one(k, i, comp):
        ref = smallest(comp)
        cams, rel = k.f('cams_'), k.f('inter_camera_transform_')
        cg = k.new('CameraGroup', ref, i)
        def member(k, j, c):
            k.call(M + 'CameraGroup::insertCamera', cg, mget(cams, c))
            path = k.call('Graph::shortestPathBetween', g, ref, c)
            k.put('relative_camera_pose_', c, V6(chained(k, path, rel, 'mulL')), cg, 'CameraGroup')
        k.over(comp, member)
        k.put('cam_group_', i, cg)
    k.over(comps, one)

def to_reference(k, g, comp, ref, rel, op):
    """for every part: its pose with respect to the reference part"""
    k.let('poses', mnil('I', 'M'))
    def part(k, j, p):
        path = k.call('Graph::shortestPathBetween', g, ref, p)
        k.let('poses', mput(k.get('poses'), p, chained(k, path, rel, op)))
    k.over(comp, part)
    return k.get('poses')

def among(comp, x):
    return exists(drange(I(0), vlen(comp)), lambda b: eq(vget(comp, b), x))

@contract(M + 'Calibration::mergeCameraGroup', 'C09')
def _(k):
    g, comps = components(k, 'no_overlap_camgroup_graph_')
    old, rel = k.f('cam_group_'), k.f('no_overlap_camgroup_pair_pose_')
    G = 'CameraGroup'
    k.var('poses', mnil('I', 'M')); k.var('merged', mnil('I', 'Ref'))
    def one(k, i, comp):
        ref = smallest(comp)
        poses = to_reference(k, g, comp, ref, rel, 'mulL')
        cg = k.new(G, k.f('id_ref_cam_', mget(old, ref), G), i)
        def part(k, key, p):
            pid = k.f('cam_group_idx_', p, G)
            def camera(k, key, c):
                k.call(M + 'CameraGroup::insertCamera', cg, c)
                cid = k.f('cam_idx_', c, 'Camera')
                k.put('relative_camera_pose_', cid, V6(mmul(camera_pose(k, p, cid), mget(poses, pid))), cg, G)
            k.when(among(comp, pid), lambda k: k.over(k.f('cameras_', p, G), camera))
        k.over(old, part)
        k.let('merged', mput(k.get('merged'), i, cg))
    k.over(comps, one)
    k.setf('cam_group_', k.get('merged'))
    # measured between the previous groups, they say nothing about the merged ones
    for f in ('no_overlap_camgroup_pair_pose_', 'no_overlap__camgroup_pair_common_cnt_'): k.setf(f, default(k.sort('Calibration', f)))

@contract(M + 'Calibration::mergeObjects', ['C08', 'C09'])
def _(k):
    g, comps = components(k, 'covis_objects_graph_')
    old, rel = k.f('object_3d_'), k.f('inter_object_transform_')
    O = 'Object3D'
    k.var('poses', mnil('I', 'M')); k.var('merged', mnil('I', 'Ref')); k.var('count', I(0))
    def one(k, i, comp):
        ref = smallest(comp)
        poses = to_reference(k, g, comp, ref, rel, 'mulR')
        nb = total(drange(I(0), vlen(comp)), lambda j: msize(k.f('boards_', mget(old, vget(comp, j)), O)))
        rb = k.f('ref_board_id_', mget(old, ref), O)
        o = k.new(O, nb, rb, i, k.f('color_', mget(k.f('boards_3d_'), rb), 'Board'))
        k.let('count', I(0))
        def part(k, key, p):
            pid = k.f('obj_id_', p, O)
            def board(k, key, b):
                bid = k.f('board_id_', b, 'Board')
                pose = mmul(mget(poses, pid), board_pose(k, p, bid))
                k.call(M + 'Object3D::insertBoardInObject', o, b)
                k.put('relative_board_pose_', bid, V6(pose), o, O)
                add_points(k, o, bid, b, pose)
            k.when(among(comp, pid), lambda k: k.over(k.f('boards_', p, O), board))
        k.over(old, part)
        k.let('merged', mput(k.get('merged'), i, o))
    k.over(comps, one)
    k.setf('object_3d_', k.get('merged'))

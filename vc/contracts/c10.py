"""C10: pairwise relative poses come from every common observation"""
from .base import *
M = 'McCalib::'


@contract(M + 'Calibration::computeBoardsPairPose', 'C10')
def _(k):
    k.setf('board_pose_pairs_', default(k.sort('Calibration', 'board_pose_pairs_')))
    def view(k, key, co):
        obs = k.f('board_observations_', co, 'CameraObs')
        def first(k, i, o1):
            b1 = k.f('board_id_', o1, 'BoardObs')
            def second(k, j, o2):
                b2 = k.f('board_id_', o2, 'BoardObs')
                k.when(ne(b1, b2), lambda k: k.pushat('board_pose_pairs_', pair(b1, b2),
                    mmul(minv(obs_pose(k, 'BoardObs', o2)), obs_pose(k, 'BoardObs', o1))))
            k.over(obs, second)
        k.when(lt(I(1), vlen(k.f('board_idx_', co, 'CameraObs'))), lambda k: k.over(obs, first))
    k.over(k.f('cams_obs_'), view)

@contract(M + 'Calibration::computeCamerasPairPose', 'C10')
def _(k):
    k.setf('camera_pose_pairs_', default(k.sort('Calibration', 'camera_pose_pairs_')))
    def frame(k, key, fr):
        obs = k.f('object_observations_', fr, 'Frame')
        f = lambda o, n: k.f(n, o, 'Object3DObs')
        def first(k, i, o1):
            def second(k, j, o2):
                c1, c2 = f(o1, 'camera_id_'), f(o2, 'camera_id_')
                k.when(and_(ne(c1, c2), eq(f(o1, 'object_3d_id_'), f(o2, 'object_3d_id_'))),
                    lambda k: k.pushat('camera_pose_pairs_', pair(c1, c2),
                        mmul(obs_pose(k, 'Object3DObs', o2), minv(obs_pose(k, 'Object3DObs', o1)))))
            k.over(obs, second)
        k.when(lt(I(1), msize(k.f('board_observations_', fr, 'Frame'))), lambda k: k.over(obs, first))
    k.over(k.f('frames_'), frame)

@contract(M + 'Calibration::computeObjectsPairPose', 'C10')
def _(k):
    k.setf('object_pose_pairs_', default(k.sort('Calibration', 'object_pose_pairs_')))
    def group(k, key, g):
        obs = k.f('object_observations_', g, 'CameraGroupObs')
        pose = lambda i: group_obs_pose(k, g, i)
        def first(k, i, o1):
            def second(k, j, o2):
                a, b = k.f('object_3d_id_', o1, 'Object3DObs'), k.f('object_3d_id_', o2, 'Object3DObs')
                k.when(ne(a, b), lambda k: k.pushat('object_pose_pairs_', pair(a, b), mmul(minv(pose(b)), pose(a))))
            k.over(obs, second)
        k.when(lt(I(1), vlen(k.f('object_idx_', g, 'CameraGroupObs'))), lambda k: k.over(obs, first))
    k.over(k.f('cams_group_obs_'), group)

def graph(field, name, elems, obs, ecls, idf, pairs, count=lambda k, key, poses: vlen(poses), prop='C10'):
    """one vertex per element that was observed, one edge per measured pair, cheaper the more often it was measured"""
    @contract(M + 'Calibration::' + name, prop)
    def _(k):
        g = sub_object(k, field)
        k.call('Graph::clearGraph', g)
        def vertex(k, key, e):
            k.when(lt(I(0), msize(k.f(obs, e, ecls))), lambda k: k.call('Graph::addVertex', g, k.f(idf, e, ecls)))
        k.over(k.f(elems), vertex)
        k.over(k.f(pairs), lambda k, key, poses: k.call('Graph::addEdge', g, sel(key, 0), sel(key, 1), rdiv(Rl(1), toreal(count(k, key, poses)))))

graph('covis_boards_graph_', 'initInterBoardsGraph', 'boards_3d_', 'board_observations_', 'Board', 'board_id_', 'board_pose_pairs_')
graph('covis_camera_graph_', 'initInterCamerasGraph', 'cams_', 'board_observations_', 'Camera', 'cam_idx_', 'camera_pose_pairs_')
graph('covis_objects_graph_', 'initInterObjectsGraph', 'object_3d_', 'object_observations_', 'Object3D', 'obj_id_', 'object_pose_pairs_')
graph('no_overlap_camgroup_graph_', 'initInterCamGroupGraph', 'cam_group_', 'object_observations_', 'CameraGroup', 'cam_group_idx_', 'no_overlap_camgroup_pair_pose_',
      lambda k, key, pose: mget(k.f('no_overlap__camgroup_pair_common_cnt_'), key), ['C10', 'C18'])

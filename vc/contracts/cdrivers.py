"""Functions that only put the steps of the calibration together: the contract names the steps and what they are given; each step's effect is an
arbitrary function of what its own contract reads (steps=), so steps that do not touch what another reads or writes may come in any order."""
from .base import *
CAL = NSP + 'Calibration::'
def cal(*names): return tuple(CAL + n for n in names)

# these only compute errors for the log
@contract(NSP + 'CameraGroup::reproErrorCameraGroup', ['C07', 'C13'])
def _(k): pass
@contract(CAL + 'reproErrorAllCamGroup', ['C07', 'C13'])
def _(k): pass
@contract(cal('computeReproErrAllBoard', 'computeReproErrAllObject'), ['C07', 'C13'])
def _(k): pass

def driver(name, props, *steps):
    names = tuple({s[0]: 1 for s in steps})
    @contract(CAL + name, props, steps=cal(*names))
    def _(k):
        for s, *args in steps:
            vals = []
            for a in args:
                loc = k.loc(a)
                vals.append(loc)
            k.call(CAL + s, k.this, *vals)
POSES = (('estimatePoseAllObjects',), ('computeAllObjPoseInCameraGroup',))
INTR = ('initializeCalibrationAllCam', 'estimatePoseAllBoards', 'refineIntrinsicAndPoseAllCam', 'computeReproErrAllBoard')
@contract(CAL + 'initIntrinsic', ['C05', 'C07', 'C10'], key=CAL + 'initIntrinsic#stages', steps=cal(*INTR))
def _(k):
    for s in INTR[:2]: k.call(CAL + s, k.this)
    k.when(eq(k.f('fix_intrinsic_'), I(0)), lambda k: k.call(CAL + INTR[2], k.this))
driver('calibrate3DObjects', ['C08', 'C10', 'C12'], ('computeBoardsPairPose',), ('initInterTransform', 'board_pose_pairs_', 'inter_board_transform_'), ('initInterBoardsGraph',),
       ('init3DObjects',), ('initAll3DObjectObs',), ('estimatePoseAllObjects',), ('refineAllObject3D',))
driver('calibrateCameraGroup', ['C09', 'C10', 'C11', 'C12'], ('computeCamerasPairPose',), ('initInterTransform', 'camera_pose_pairs_', 'inter_camera_transform_'), ('initInterCamerasGraph',),
       ('initCameraGroup',), ('initAllCameraGroupObs',), ('computeAllObjPoseInCameraGroup',), ('refineAllCameraGroupAndObjects',))
driver('merge3DObjects', ['C08', 'C09', 'C10', 'C11', 'C12'], ('initInterCamGroupGraph',), *POSES, ('computeObjectsPairPose',), ('initInterTransform', 'object_pose_pairs_', 'inter_object_transform_'),
       ('initInterObjectsGraph',), ('mergeObjects',), ('mergeAllObjectObs',), ('mergeAllCameraGroupObs',), *POSES, ('refineAllCameraGroupAndObjects',))

# the whole calibration: every stage runs on what the stages before it left
PIPE = ('boardExtraction', 'initIntrinsic', 'calibrate3DObjects', 'calibrateCameraGroup', 'merge3DObjects', 'findPairObjectForNonOverlap', 'findPoseNoOverlapAllCamGroup',
        'initInterCamGroupGraph', 'mergeCameraGroup', 'mergeAllCameraGroupObs', 'merge3DObjects', 'initInterCamGroupGraph', 'mergeCameraGroup', 'mergeAllCameraGroupObs',
        'estimatePoseAllObjects', 'computeAllObjPoseInCameraGroup', 'refineAllCameraGroupAndObjects')
REFINE = 'refineAllCameraGroupAndObjectsAndIntrinsic'
OUT = ('saveCamerasParams', 'save3DObj', 'save3DObjPose', 'saveReprojectionErrorToFile', 'saveDetectedKeypoints')
OTHER = ('reproErrorAllCamGroup', 'computeAvgReprojectionError', 'saveDetectionImagesAllCam', 'saveReprojectionImagesAllCam')
from . import c16
@contract('runCalibrationWorkflow', ['C08', 'C09', 'C10', 'C11', 'C12'], use=False, pre=c16.available, key='runCalibrationWorkflow#stages', steps=cal('Calibration', *PIPE, REFINE, *OUT, *OTHER))
def _(k):
    c = k.new('Calibration', k.arg(0))
    for s in PIPE: k.call(CAL + s, c)
    k.when(eq(k.f('fix_intrinsic_', c, 'Calibration'), I(0)), lambda k: k.call(CAL + REFINE, c))
    k.when(eq(k.f('save_detect_', c, 'Calibration'), I(1)), lambda k: k.call(CAL + 'saveDetectionImagesAllCam', c))
    k.when(eq(k.f('save_repro_', c, 'Calibration'), I(1)), lambda k: k.call(CAL + 'saveReprojectionImagesAllCam', c))
    for s in OUT: k.call(CAL + s, c)

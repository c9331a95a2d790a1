from .base import *
G = 'McCalib::'

@contract(G + 'RT2Proj', 'C01', shapes={0: M33, 1: M31})
def _(k): k.ret(rt4(k.arg(0), k.arg(1)))

@contract(G + 'RVecT2Proj', 'C01', shapes={0: M31, 1: M31})
def _(k): k.ret(rt4(rodr(k.arg(0)), k.arg(1)))

@contract(G + 'RVecT2ProjInt', 'C01', shapes={0: M31, 1: M31, 2: M33})
def _(k): k.ret(rt4(mmul(k.arg(2), rodr(k.arg(0))), mmul(k.arg(2), k.arg(1))))

@contract(G + 'Proj2RT', 'C01', shapes={0: M44})
def _(k):
    P = k.arg(0)
    k.setarg(1, rodrv(rot3(P))); k.setarg(2, trn3(P))

@contract(G + 'vectorProj', 'C01')
def _(k):
    v = k.arg(0)
    e = [vget(v, I(i)) for i in range(6)]
    k.ret(rt4(rodr(vec3(*e[:3])), vec3(*e[3:])))

@contract(G + 'ProjToVec', 'C01', shapes={0: M44})
def _(k): k.ret(V6(k.arg(0)))

def inverse(k, r, t):
    P = minv(rt4(rodr(r), t))
    return rodrv(rot3(P)), trn3(P)

@contract(G + 'invertRvecT', 'C01', nargs=4, shapes={0: M31, 1: M31}, key=G + 'invertRvecT/4')
def _(k):
    a, b = inverse(k, k.arg(0), k.arg(1))
    k.setarg(2, a); k.setarg(3, b)

@contract(G + 'invertRvecT', 'C01', nargs=2, shapes={0: M31, 1: M31}, key=G + 'invertRvecT/2')
def _(k):
    a, b = inverse(k, k.arg(0), k.arg(1))
    k.setarg(0, a); k.setarg(1, b)

def pose_accessors(cls, get, prefix_get, rot, trn, smat, svec, field, idx, idx_last=False):
    """one family of accessors of a stored pose; idx: the pose is one entry of a map"""
    C = G + cls + '::'
    n = 1 if idx else 0
    def stored(k, i): return mget(k.f(field), k.arg(i)) if idx else k.f(field)
    def store(k, i, x):
        if idx: k.put(field, k.arg(i), x)
        else: k.setf(field, x)
    gv, gm = get
    @contract(C + gv, 'C01')
    def _(k):
        p = stored(k, 0)
        k.setarg(n, rvec(p)); k.setarg(n + 1, tvec(p))
    @contract(C + gm, 'C01')
    def _(k): k.ret(P4(stored(k, 0)))
    @contract(C + rot, 'C01')
    def _(k): k.ret(rvec(stored(k, 0)))
    @contract(C + trn, 'C01')
    def _(k): k.ret(tvec(stored(k, 0)))
    @contract(C + smat[0], 'C01', shapes={smat[1]: M44})
    def _(k): store(k, smat[2], V6(k.arg(smat[1])))
    a = 1 if (idx and smat[2] == 0) else 0       # position of the rotation vector
    @contract(C + svec, 'C01', shapes={a: M31, a + 1: M31})
    def _(k): store(k, 0 if a else 2, V33(k.arg(a), k.arg(a + 1)))

pose_accessors('BoardObs', ('getPoseVec', 'getPoseMat'), None, 'getRotVec', 'getTransVec', ('setPoseMat', 0, None), 'setPoseVec', 'pose_', False)
pose_accessors('Object3DObs', ('getPoseVec', 'getPoseMat'), None, 'getRotVec', 'getTransVec', ('setPoseMat', 0, None), 'setPoseVec', 'pose_', False)
pose_accessors('Object3DObs', ('getPoseInGroupVec', 'getPoseInGroupMat'), None, 'getRotInGroupVec', 'getTransInGroupVec', ('setPoseInGroupMat', 0, None), 'setPoseInGroupVec', 'group_pose_', False)
pose_accessors('CameraGroup', ('getCameraPoseVec', 'getCameraPoseMat'), None, 'getCameraRotVec', 'getCameraTransVec', ('setCameraPoseMat', 0, 1), 'setCameraPoseVec', 'relative_camera_pose_', True)
pose_accessors('CameraGroupObs', ('getObjectPoseVec', 'getObjectPoseMat'), None, 'getObjectRotVec', 'getObjectTransVec', ('setObjectPoseMat', 0, 1), 'setObjectPoseVec', 'object_pose_', True)
pose_accessors('Object3D', ('getBoardPoseVec', 'getBoardPoseMat'), None, 'getBoardRotVec', 'getBoardTransVec', ('setBoardPoseMat', 1, 0), 'setBoardPoseVec', 'relative_board_pose_', True)

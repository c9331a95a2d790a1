from .c17 import inside
from .base import *
C = 'McCalib::Camera::'
A9 = ('arr', 9, 'R')
def Kmat(v):
    z = Rl(0)
    return mat(M33, [sel(v, 0), z, sel(v, 2), z, sel(v, 1), sel(v, 3), z, z, Rl(1)])
def dist(v, model):
    """Brown (k1,k2,p1,p2,k3) or equidistant fisheye (k1..k4) coefficients, OpenCV order"""
    return ite(eq(model, I(0)), mat((1, 5, 'd'), [sel(v, i) for i in range(4, 9)]), mat((1, 4, 'd'), [sel(v, i) for i in range(4, 8)]))
def model_ok(k): return or_(eq(k.f('distortion_model_'), I(0)), eq(k.f('distortion_model_'), I(1)))
LENS = ('the lens model of a camera is 0 (Brown) or 1 (Kannala)', lambda k: model_ok0(k))
def model_ok0(k): return or_(eq(k.f('distortion_model_', cls='Camera'), I(0)), eq(k.f('distortion_model_', cls='Camera'), I(1)))

@contract(C + 'getCameraMat', 'C05')
def _(k): k.ret(Kmat(k.f('intrinsics_')))
def setK(v, M): return mk(A9, *([tm.at(M, I(0), I(0)), tm.at(M, I(1), I(1)), tm.at(M, I(0), I(2)), tm.at(M, I(1), I(2))] + [sel(v, i) for i in range(4, 9)]))
@contract(C + 'setCameraMat', 'C05', shapes={0: M33})
def _(k): k.setf('intrinsics_', setK(k.f('intrinsics_'), k.arg(0)))
def setD(v, M, model):
    e = lambda i: ('e', i)
    g = lambda i: k_at(M, i)
    return ite(eq(model, I(0)), mk(A9, *([sel(v, i) for i in range(4)] + [g(i) for i in range(5)])),
               ite(eq(model, I(1)), mk(A9, *([sel(v, i) for i in range(4)] + [g(i) for i in range(4)] + [sel(v, 8)])), v))
def k_at(M, i):
    s = shape(M)
    if s and s[0] == 1: return tm.at(M, I(0), I(i))
    if s and s[1] == 1: return tm.at(M, I(i), I(0))
    if M.op == 'ite': return ite(M.args[0], k_at(M.args[1], i), k_at(M.args[2], i))
    return mkraw('at1', (M, I(i)), 'R')
@contract(C + 'setDistortionVector', 'C05')
def _(k): k.setf('intrinsics_', setD(k.f('intrinsics_'), k.arg(0), k.f('distortion_model_')))
@contract(C + 'getDistortionVectorVector', 'C05', inv=LENS)
def _(k): k.ret(dist(k.f('intrinsics_'), k.f('distortion_model_')))
@contract(C + 'getIntrinsics', 'C05', inv=LENS)
def _(k):
    v = k.f('intrinsics_')
    k.setarg(0, Kmat(v)); k.setarg(1, dist(v, k.f('distortion_model_')))
@contract(C + 'setIntrinsics', 'C05', shapes={0: M33})
def _(k):
    k.setf('intrinsics_', setD(setK(k.f('intrinsics_'), k.arg(0)), k.arg(1), k.f('distortion_model_')))

@contract(C + 'initializeCalibration', ['C05', 'C17'], inv=LENS)
def _(k):
    model = k.f('distortion_model_')
    bo = k.f('board_observations_'); n = msize(bo)
    lim = ite(eq(model, I(1)), I(500), I(50))
    cnt = ite(lt(n, lim), n, lim)
    perm = mkraw('vshuffle', (collect('I', drange(I(0), n), lambda b: b), k.rnd()), ('vec', 'I'))
    obs = lambda b: mget(bo, vget(perm, b))
    ok = lambda b: or_(ne(model, I(1)), inside(k, k.this, obs(b)))
    P2, P3 = k.sort('BoardObs', 'pts_2d_'), k.sort('Board', 'pts_3d_')
    img = collect(P2, drange(I(0), cnt), lambda b: k.f('pts_2d_', obs(b), 'BoardObs'), ok)
    def pts3(b):
        o = obs(b)
        ids = k.f('charuco_id_', o, 'BoardObs'); brd = k.f('board_3d_', o, 'BoardObs')
        return collect(P3[1], drange(I(0), vlen(ids)), lambda c: vget(k.f('pts_3d_', brd, 'Board'), vget(ids, c)))
    obj = collect(P3, drange(I(0), cnt), pts3, ok)
    size = mk(('st', 'Size', 'I', 'I'), k.f('im_cols_'), k.f('im_rows_'))
    def solved(fn, *flags):
        c = mkraw('call:' + fn, (obj, img, size, default('M'), default('M')) + flags, 'C')
        return mkraw('out', (c, 3), 'M'), mkraw('out', (c, 4), 'M')
    K0, D0 = solved('cv::calibrateCamera', I(0))
    K1, D1 = solved('cv::fisheye::calibrate', I(2 | 8))
    Kx, Dx = ite(eq(model, I(0)), K0, K1), ite(eq(model, I(0)), D0, D1)
    k.setf('intrinsics_', setD(setK(k.f('intrinsics_'), Kx), Dx, model))

# lens of every camera: from the file of parameters when one is given, otherwise estimated; an unusable file leaves the cameras alone
@contract('McCalib::Calibration::initializeCalibrationAllCam', ['C05', 'C07', 'C19'])
def _(k):
    path = k.f('cam_params_path_')
    file = libext.opened(path, I(0))
    def load(k, key, c):
        n = libext.node(file, lib_.scat(S('camera_'), mkraw('tostr', (key,), 'S')))
        K, D = (libext.fsread(libext.node(n, S(f)), 'M') for f in ('camera_matrix', 'distortion_vector'))
        k.call(C + 'setIntrinsics', c, K, D)
    available = and_(mkraw('std::filesystem::exists', (path,), 'B'), mkraw('str.has_filename', (path,), 'B'), eq(mkraw('str.extension', (path,), 'S'), S('.yml')))
    k.when(and_(ne(path, S('')), ne(path, S('None'))), lambda k: k.when(available, lambda k: k.over(k.f('cams_'), load)),
           lambda k: k.over(k.f('cams_'), lambda k, key, c: k.call(C + 'initializeCalibration', c)))

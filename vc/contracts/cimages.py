"""Pictures saved for the user: every image of a camera with its detected points, or with its detected and its predicted points, drawn on it"""
from .base import *
import libext
from .c13 import seen_by, points_of
from .c19 import join
CAL = NSP + 'Calibration::'
PIXEL = ('st', 'Point2', 'I', 'I')
def circle(k, name, p, colour):
    args = k.get(name), mk(PIXEL, trunc(sel(p, 0)), trunc(sel(p, 1)))
    call = mkraw('call:cv::circle', args + (I(4), colour, I(-1), I(8), I(0)), 'C')
    k.let(name, mkraw('out', (call, 0), 'M'))
def scalar(*xs): return mk(('arr', 4, 'R'), *[toreal(x) for x in xs], Rl(0))
def padded(i, n): return libext.padded(mkraw('tostr', (i,), 'S'), I(n), I(48))
has_name = lambda p: mkraw('str.has_filename', (p,), 'B')
exists_ = lambda p: mkraw('std::filesystem::exists', (p,), 'B')

def pictures(k, folder, draw):
    cam = k.arg(0)
    root = join(k.f('save_path_'), S(folder)); d = join(root, padded(cam, 3))
    for p in (root, d): k.when(and_(not_(exists_(p)), has_name(root)), lambda k: libext.effect(k.ex, k.st, 'mkdir', p))
    def frame(k, key, fr):
        k.var('image', mkraw('ret', (mkraw('call:cv::imread', (mget(k.f('frame_path_', fr, 'Frame'), cam), I(1)), 'C'),), 'M'))
        def gobs(k, key, go):
            k.over(k.f('object_observations_', go, 'CameraGroupObs'), lambda k, key, o: k.when(eq(k.f('camera_id_', o, 'Object3DObs'), cam), lambda k: draw(k, cam, go, o)))
        k.over(k.f('cam_group_observations_', fr, 'Frame'), gobs)
        im = k.get('image')
        k.when(not_(eq(mkraw('mtotal', (im,), 'I'), I(0))), lambda k: libext.effect(k.ex, k.st, 'image', join(d, lib_.scat(padded(k.f('frame_idx_', fr, 'Frame'), 6), S('.jpg'))), im))
    k.over(k.f('frames_'), frame)

@contract(CAL + 'saveDetectionImages', 'C19')
def _(k):
    def draw(k, cam, go, o):
        c = k.f('color_', k.f('object_3d_', o, 'Object3DObs'), 'Object3D')
        k.over(k.f('pts_2d_', o, 'Object3DObs'), lambda k, i, p: circle(k, 'image', p, scalar(*[sel(c, j) for j in range(3)])))
    pictures(k, 'Detection', draw)

@contract(CAL + 'saveReprojectionImages', ['C19', 'C13'])
def _(k):
    def draw(k, cam, go, o):
        f = lambda n: k.f(n, o, 'Object3DObs')
        P = mmul(camera_pose(k, k.f('cam_group_', go, 'CameraGroupObs'), cam), P4(f('group_pose_')))
        pred = seen_by(k, mget(k.f('cams_'), cam), points_of(k.f('pts_3d_', f('object_3d_'), 'Object3D'), f('pts_id_')), lib_.rodrv(rot3(P)), trn3(P))
        def point(k, i, p):
            circle(k, 'image', vget(pred, i), scalar(I(0), I(0), I(255)))
            circle(k, 'image', p, scalar(I(0), I(255), I(0)))
        k.over(f('pts_2d_'), point)
    pictures(k, 'Reprojection', draw)

@contract(CAL + 'saveDetectionImagesAllCam', 'C19', steps=(CAL + 'saveDetectionImages',))
def _(k): k.over(k.f('cams_'), lambda k, key, c: k.call(CAL + 'saveDetectionImages', k.this, k.f('cam_idx_', c, 'Camera')))
@contract(CAL + 'saveReprojectionImagesAllCam', 'C19', steps=(CAL + 'saveReprojectionImages',))
def _(k): k.over(k.f('cams_'), lambda k, key, c: k.call(CAL + 'saveReprojectionImages', k.this, k.f('cam_idx_', c, 'Camera')))

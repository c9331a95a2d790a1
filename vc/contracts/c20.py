from .base import *
from spec import Contract, REG
import libext
from .c19 import join
Cal = 'McCalib::Calibration::'
DETECT = Cal + 'detectBoardsInImageWithCamera'
def imread(p): return mkraw('ret', (mkraw('call:cv::imread', (p, I(1)), 'C'),), 'M')

# the detection task of one image: what the tasks share is changed, and what they change is read, under one lock only
D = REG.lookup(DETECT, 3)
REG.add(Contract(DETECT, D.fn, ['C20'], key=DETECT + ' (threads)', use=False, monitor='task', steps=D.steps))

@contract(Cal + 'detectBoardsWithCamera', ['C20', 'C17'], steps=(DETECT,), monitor='main')
def _(k):
    fn, cam = k.arg(0), k.arg(1)
    n = vlen(fn)
    def size(k):
        C = mget(k.f('cams_'), cam)
        img = imread(vget(fn, I(0)))
        k.setf('im_cols_', mcols(img), C, 'Camera')
        k.setf('im_rows_', mrows(img), C, 'Camera')
    k.when(lt(I(0), n), size)
    k.each(drange(I(0), n), lambda k, i: k.call(DETECT, k.this, vget(fn, i), cam, i))

ALLOWED = ('jpg', 'png', 'bmp', 'jpeg', 'jp2', 'tiff')
def is_image(p):
    npos = mkraw('global', ('std::basic_string::npos',), 'I')
    ext = lib_.uf('str.substr', 'S', p, add(lib_.uf('str.find_last_of', 'I', p, S('.'), npos), I(1)), npos)
    return or_(*[eq(ext, S(a)) for a in ALLOWED])
@contract(Cal + 'detectBoards', ['C20', 'C17'], steps=(Cal + 'detectBoardsWithCamera',))
def _(k):
    """camera by camera: every image below the folder of the camera"""
    def camera(k, cam):
        folder = join(k.f('root_path_'), lib_.scat(k.f('cam_prefix_'), libext.padded(mkraw('tostr', (add(cam, I(1)),), 'S'), I(3), I(48))))
        found = mkraw('out', (mkraw('call:cv::glob', (join(folder, S('*.*')), TRUE), 'C'), 1), ('vec', 'S'))
        images = collect('S', drange(I(0), vlen(found)), lambda b: vget(found, b), lambda b: is_image(vget(found, b)))
        k.call(Cal + 'detectBoardsWithCamera', k.this, images, cam)
    k.each(drange(I(0), k.f('nb_camera_')), camera)
@contract(Cal + 'boardExtraction', ['C20', 'C16'], steps=(Cal + 'detectBoards', Cal + 'loadDetectedKeypoints'))
def _(k):
    p = k.f('keypoints_path_')
    k.when(and_(not_(eq(p, S(''))), not_(eq(p, S('None'))), lib_.uf('std::filesystem::exists', 'B', p)),
           lambda k: k.call(Cal + 'loadDetectedKeypoints', k.this), lambda k: k.call(Cal + 'detectBoards', k.this))

# What the sections record does not depend on their order: a record gets a number no other record has, and no earlier record is changed.
INSERT = Cal + 'insertNewBoard'
I0 = REG.lookup(INSERT, 6)
def numbered(m): return forall(dkeys(m), lambda b: and_(le(I(0), b), lt(b, msize(m))))
def recorded(k, v):
    m, m2 = k.f('board_observations_'), k.after.f('board_observations_')
    n = msize(m)
    yield 'the number of the record is not in use', not_(mhas(m, n))
    yield 'one record is added', eq(msize(m2), add(n, I(1)))
    yield 'records stay numbered consecutively', numbered(m2)
    yield 'earlier records keep their number', forall(dkeys(m), lambda b: eq(mget(m2, b), mget(m, b)))
    o = mget(m2, n)
    for f, i in (('camera_id_', 0), ('frame_id_', 1), ('board_id_', 2), ('pts_2d_', 3), ('charuco_id_', 4)):
        yield 'the record holds what was detected: ' + f, eq(k.after.f(f, o, 'BoardObs'), k.arg(i))
    old = sym('earlier', 'Ref')
    for f in ('camera_id_', 'frame_id_', 'board_id_', 'pts_2d_', 'charuco_id_', 'valid_', 'cam_', 'board_3d_'):
        yield 'earlier records keep their ' + f, or_(eq(old, o), eq(k.after.f(f, old, 'BoardObs'), k.f(f, old, 'BoardObs')))
REG.add(Contract(INSERT, I0.fn, ['C20', 'C12'], key=INSERT + ' (set of records)', use=False, pre=lambda k: numbered(k.f('board_observations_')), post=recorded))

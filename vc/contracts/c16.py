"""C16: every option of the configuration file sets its own parameter; boards and patterns follow it"""
from .base import *
import libext
from libext import opened, node, fsread, markers
from .c12 import undef
M = 'McCalib::'
VI, VR = ('vec', 'I'), ('vec', 'R')

def fresh_fields(k, cls, given, preset={}):
    """a new object: the given fields, empty containers and graphs elsewhere (other numbers are left open)"""
    for f, t, init in k.ex.prog.records[fullcls(cls)]:
        if f in given: k.setf(f, given[f])
        elif f in preset: k.setf(f, preset[f])
        elif exm.is_object_type(t): k.ex.construct(k.st, sub_object(k, f), t, [])
        else:
            so = k.sort(cls, f)
            k.setf(f, default(so) if so not in ('I', 'R', 'B') and so[0] != 'arr' else undef(k, cls, f))

def ids_of_pattern(xs, ys, b):
    """identifiers of the markers of pattern b: those following the markers of the patterns before it"""
    n = lambda j: markers(vget(xs, j), vget(ys, j))
    first = total(drange(I(0), b), n)
    return collect('I', drange(I(0), n(b)), lambda j: add(j, first))

@contract(M + 'createCharucoBoards', 'C16')
def _(k):
    n, xs, ys, square, marker, dic = (k.arg(i) for i in range(6))
    m0 = mnil('I', 'Ref')
    k.var('m', m0)
    def pattern(k, b):
        ref = libext.charuco(k.ex, k.st, vget(xs, b), vget(ys, b), square, marker, dic)
        k.setf('pattern', mkraw('pattern', (vget(xs, b), vget(ys, b), square, marker, dic), 'Ref'), ref, libext.CB)
        k.setf('ids', ids_of_pattern(xs, ys, b), ref, libext.AB)
        k.let('m', mput(k.get('m'), b, ref))
    k.each(drange(I(0), n), pattern)
    k.ret(k.get('m'))

@contract(M + 'convertStrToPath', 'C16')
def _(k): k.ret(k.arg(0))

@contract(M + 'Camera::Camera', 'C16')
def _(k): fresh_fields(k, 'Camera', {'cam_idx_': k.arg(0), 'distortion_model_': k.arg(1), 'border_marging': Rl(Fraction(1, 20))})

def available(k):
    """the configuration file exists and is called *.yml (otherwise nothing is configured at all)"""
    p = k.arg(0)
    return and_(mkraw('std::filesystem::exists', (p,), 'B'), mkraw('str.has_filename', (p,), 'B'), eq(mkraw('str.extension', (p,), 'S'), S('.yml')))

def option(k, key, so, path=None):
    """value of a key of the configuration file"""
    return fsread(node(opened(k.arg(0) if path is None else path, I(0)), S(key)), so)

def selected(k):
    """patterns the boards use, by default 0..n-1"""
    sel_ = option(k, 'boards_index', VI)
    n = option(k, 'number_board', 'I')
    return ite(eq(vlen(sel_), I(0)), collect('I', drange(I(0), n), lambda j: j), sel_)

def nb_boards(k):
    l = option(k, 'boards_index', VI)
    return ite(eq(vlen(l), I(0)), option(k, 'number_board', 'I'), vlen(l))
@contract(M + 'Board::Board', 'C16', nargs=3, pre=lambda k: and_(available(k), le(I(0), k.arg(1)), lt(k.arg(1), nb_boards(k))))
def _(k):
    b = k.arg(1)
    pattern = vget(selected(k), b)
    def per_board(key, common, so, so_common, by=None):
        l = option(k, key, ('vec', so)); c = option(k, by or key, l.sort)
        return ite(eq(vlen(c), I(0)), option(k, common, so_common), vget(l, pattern))
    X = per_board('number_x_square_per_board', 'number_x_square', 'I', 'I')
    Y = per_board('number_y_square_per_board', 'number_y_square', 'I', 'I', by='number_x_square_per_board')
    Z = per_board('square_size_per_board', 'square_size', 'R', 'R')
    nx, ny = sub(X, I(1)), sub(Y, I(1))
    y, x = bvar('y', 'I'), bvar('x', 'I')
    P3 = k.sort('Board', 'pts_3d_')[1]
    pts = loops.finish(vnil(P3), [(((y, drange(I(0), ny)), (x, drange(I(0), nx))), TRUE, 'push', (pt3(mul(toreal(x), Z), mul(toreal(y), Z), Rl(0)),))])
    fresh_fields(k, 'Board', dict(nb_x_square_=X, nb_y_square_=Y, square_size_=Z, res_x_=option(k, 'resolution_x', 'I'), res_y_=option(k, 'resolution_y', 'I'),
        length_square_=option(k, 'length_square', 'R'), length_marker_=option(k, 'length_marker', 'R'), nb_pts_=mul(nx, ny), pts_3d_=pts, board_id_=b, charuco_board_=k.arg(2)))

OPTIONS = dict(refine_corner_='refine_corner', min_perc_pts_='min_perc_pts', cam_prefix_='cam_prefix', quaternion_averaging_='quaternion_averaging', ransac_thresh_='ransac_threshold',
    nb_iterations_='number_iterations', save_repro_='save_reprojection', save_detect_='save_detection', he_approach_='he_approach', fix_intrinsic_='fix_intrinsic', root_path_='root_path',
    save_path_='save_path', camera_params_file_name_='camera_params_file_name', cam_params_path_='cam_params_path', keypoints_path_='keypoints_path',
    square_size_per_board_='square_size_per_board', resolution_x_per_board_='resolution_x_per_board', resolution_y_per_board_='resolution_y_per_board', nb_camera_='number_camera')

@contract(M + 'Calibration::Calibration', 'C16', nargs=1, pre=available)
def _(k):
    so = lambda f: k.sort('Calibration', f)
    given = {f: option(k, key, so(f)) for f, key in OPTIONS.items()}
    sel_ = option(k, 'boards_index', VI)
    n = nb_boards(k)
    # patterns up to the greatest one in use
    top = vget(sel_, mkraw('argmax', (sel_, I(0), vlen(sel_)), 'I'))
    total_ = ite(eq(vlen(sel_), I(0)), n, add(top, I(1)))
    xs = option(k, 'number_x_square_per_board', VI)
    given['nb_board_'] = n
    for f, key, common in (('number_x_square_per_board_', 'number_x_square_per_board', 'number_x_square'), ('number_y_square_per_board_', 'number_y_square_per_board', 'number_y_square')):
        given[f] = ite(eq(vlen(xs), I(0)), vrep(total_, option(k, common, 'I')), option(k, key, VI))
    params = k.ex.alloc(k.st, libext.PARAMS)
    k.setf('adaptiveThreshConstant', Rl(1), params, libext.PARAMS)
    fresh_fields(k, 'Calibration', given, {'dict_': mkraw('ret', (mkraw('call:cv::aruco::getPredefinedDictionary', (I(11),), 'C'),), so('dict_')), 'charuco_params_': params, 'corner_ref_window_': I(5), 'corner_ref_max_iter_': I(20)})
    # the directory for the results
    d = given['save_path_']
    k.when(and_(not_(mkraw('std::filesystem::exists', (d,), 'B')), mkraw('str.has_filename', (d,), 'B')), lambda k: libext.effect(k.ex, k.st, 'mkdir', d))
    models = option(k, 'distortion_per_camera', VI)
    def camera(k, i):
        m = ite(eq(vlen(models), I(0)), option(k, 'distortion_model', 'I'), vget(models, i))
        k.put('cams_', i, k.new('Camera', i, m))
    k.each(drange(I(0), given['nb_camera_']), camera)
    pats = k.call(M + 'createCharucoBoards', None, total_, k.f('number_x_square_per_board_'), k.f('number_y_square_per_board_'), option(k, 'length_square', 'R'), option(k, 'length_marker', 'R'), k.f('dict_'))
    def board(k, b): k.put('boards_3d_', b, k.new('Board', k.arg(0), b, mget(pats, vget(selected(k), b))))
    k.each(drange(I(0), n), board)

DICT = mkraw('ret', (mkraw('call:cv::aruco::getPredefinedDictionary', (I(11),), 'C'),), 'Ref')
SIZE = ('st', 'Size', 'I', 'I')
def draw_pattern(k, ref, w, h):
    return libext.boardimage(k.f('pattern', ref, libext.CB), k.f('ids', ref, libext.AB), mk(SIZE, w, h), I(10), I(1))

@contract(M + 'createCharucoBoardsImages', 'C16')
def _(k):
    n, xs, ys, square, marker, rx, ry = (k.arg(i) for i in range(7))
    pats = k.call(M + 'createCharucoBoards', None, n, xs, ys, square, marker, DICT)
    k.var('im', vnil('M'))
    def one(k, b, ref): k.let('im', vpush(k.get('im'), draw_pattern(k, ref, vget(rx, b), vget(ry, b))))
    k.over(pats, one)
    k.ret(k.get('im'))

@contract('saveBoards', 'C16')
def _(k):
    d = S('charuco_boards')
    k.when(mkraw('std::filesystem::exists', (d,), 'B'), None, lambda k: libext.effect(k.ex, k.st, 'mkdir', d))
    def one(k, b, im):
        n = libext.padded(mkraw('tostr', (b,), 'S'), I(3), I(48))
        k_path = mkraw('pathjoin', (d, lib_.scat(lib_.scat(S('charuco_board_'), n), S('.bmp'))), 'S')
        libext.effect(k.ex, k.st, 'image', k_path, im)
    k.over(k.arg(0), one)

def config_of_main(k):
    p = mkraw('argv', (k.arg(1), I(1)), 'S')
    return p, and_(mkraw('std::filesystem::exists', (p,), 'B'), mkraw('str.has_filename', (p,), 'B'), eq(mkraw('str.extension', (p,), 'S'), S('.yml')))

@contract('main', 'C16', sig=lambda F: 'create_charuco_boards' in F['file'], key='create_charuco_boards main', pre=lambda k: and_(eq(k.arg(0), I(2)), config_of_main(k)[1]))
def _(k):
    """the images of the patterns the configuration describes are written"""
    path = config_of_main(k)[0]
    opt = lambda key, so: option(k, key, so, path)
    n = opt('number_board', 'I')
    def per_board(key, common, by=None):
        return ite(eq(vlen(opt(by or key, VI)), I(0)), vrep(n, opt(common, 'I')), opt(key, VI))
    xs, ys = per_board('number_x_square_per_board', 'number_x_square'), per_board('number_y_square_per_board', 'number_y_square', 'number_x_square_per_board')
    rx, ry = per_board('resolution_x_per_board', 'resolution_x'), per_board('resolution_y_per_board', 'resolution_y', 'resolution_x_per_board')
    ims = k.call(M + 'createCharucoBoardsImages', None, n, xs, ys, opt('length_square', 'R'), opt('length_marker', 'R'), rx, ry)
    k.call('saveBoards', None, ims)
    k.ret(I(0))

from .base import *
C = 'McCalib::Camera::'
P2 = ('st', 'Point2', 'R', 'R')
MARGIN = Rl(Fraction(5, 100))

def outside(k, cam, p):
    w, h = toreal(k.f('im_cols_', cam, 'Camera')), toreal(k.f('im_rows_', cam, 'Camera'))
    x, y = sel(p, 0), sel(p, 1)
    mx, my = mul(w, MARGIN), mul(h, MARGIN)
    return or_(le(x, mx), ge(x, sub(w, mx)), le(y, my), ge(y, sub(h, my)))
def inside(k, cam, obs):
    """every point of the board lies strictly inside the 5% border margin"""
    pts = k.f('pts_2d_', obs, 'BoardObs')
    return not_(exists(drange(I(0), vlen(pts)), lambda b: outside(k, cam, vget(pts, b))))

@contract(C + 'checkBorderToleranceFisheye', ['C17', 'C05'])
def _(k): k.ret(inside(k, k.this, k.arg(0)))

# ------------------------------------------------ distance to the best line
def absr(x):
    y = neg(x)
    return mkraw('abs', (x if x.id < y.id else y,), x.sort)
VEC4 = ('arr', 4, 'R')
def residual(pts):
    """(a, b, c, mean distance of the points to the line ax + by + c = 0 fitted to all of them)"""
    V = mkraw('out', (mkraw('call:cv::fitLine', (pts, I(2), Rl(0), Rl(Fraction(1, 100)), Rl(Fraction(1, 100))), 'C'), 1), VEC4)
    vx, vy, x0, y0 = [sel(V, i) for i in range(4)]
    a, b, c = vy, neg(vx), sub(mul(vx, y0), mul(vy, x0))
    b_ = bvar('k', 'I')
    p = vget(pts, b_)
    tot = loops.finish(Rl(0), [(((b_, drange(I(0), vlen(pts))),), TRUE, 'add', (absr(add(mul(sel(p, 0), a), mul(sel(p, 1), b), c)),))])
    return a, b, c, rdiv(tot, toreal(vlen(pts)))
@contract(NSP + 'calcLinePara', 'C17')
def _(k):
    a, b, c, res = residual(k.arg(0))
    for i, x in ((1, a), (2, b), (3, c), (4, res)): k.setarg(i, x)

# ------------------------------------------------ saddle model
def window(h): return drange(neg(h), add(h, I(1)))
def side(h): return add(mul(I(2), h), I(1))
def number(h, y, x): return add(mul(add(y, h), side(h)), add(x, h))      # the element of a window stored row by row
def cone(h, y, x): return sub(toreal(add(h, I(1))), lib_.uf('sqrt', 'R', toreal(add(mul(x, x), mul(y, y)))))

def cone_kernel(h):
    """(weights falling off with the distance to the centre, zero from distance h+1 on, summing to one; number of positive ones)"""
    y, x = bvar('y', 'I'), bvar('x', 'I')
    dom = ((y, window(h)), (x, window(h)))
    w = cone(h, y, x)
    pos = lt(Rl(0), w)
    n = loops.finish(I(0), [(dom, pos, 'add', (I(1),))])
    s = loops.finish(Rl(0), [(dom, TRUE, 'add', (ite(pos, w, Rl(0)),))])
    W = loops.finish(mkraw('mundef', (side(h), side(h), I(5)), 'M'), [(dom, TRUE, 'mset', (I(0), number(h, y, x), ite(pos, w, Rl(0))))])
    return mscale(W, rdiv(Rl(1), s)), mkraw('mundef', (side(h), side(h), I(0)), 'M'), n
@contract(NSP + 'initConeSmoothingKernel', 'C17')
def _(k):
    W, mask, n = cone_kernel(k.arg(0))
    k.setarg(1, W); k.setarg(2, mask); k.setarg(3, add(k.arg(3), n))

def running(h, y, x, keep):
    """how many elements of the window before (y, x), row by row, are kept"""
    y1, x1, x2 = bvar('y', 'I'), bvar('x', 'I'), bvar('x', 'I')
    return add(loops.finish(I(0), [(((y1, drange(neg(h), y)), (x1, window(h))), keep(y1, x1), 'add', (I(1),))]),
               loops.finish(I(0), [(((x2, drange(neg(h), x)),), keep(y, x2), 'add', (I(1),))]))

def saddle_fit(h, n, W, mask):
    """(mask of the positions of positive weight, pseudo-inverse of the monomials x^2, y^2, xy, y, x, 1 at those positions)"""
    y, x = bvar('y', 'I'), bvar('x', 'I')
    dom = ((y, window(h)), (x, window(h)))
    keep = lambda y, x: lt(Rl(0), tm.at(W, I(0), number(h, y, x)))
    mask = loops.finish(mask, [(dom, TRUE, 'mset', (I(0), number(h, y, x), ite(keep(y, x), Rl(255), Rl(0))))])
    row = running(h, y, x, keep)
    A = loops.finish(mkraw('mundef', (n, I(6), I(6)), 'M'), [(dom, keep(y, x), 'mset', (I(0), add(mul(I(6), row), I(j)), toreal(m)))
                         for j, m in enumerate((mul(x, x), mul(y, y), mul(x, y), y, x, I(1)))])
    return mask, mmul(minv(mmul(mt(A), A)), mt(A))
@contract(NSP + 'initSaddleFitting', 'C17')
def _(k):
    mask, F = saddle_fit(*[k.arg(i) for i in range(4)])
    k.setarg(3, mask); k.setarg(4, F)

def in_patch(x, y, h, img):
    """the window around the point and its interpolation margin lie inside the image"""
    m, n = toreal(add(h, I(1))), toreal(add(h, I(2)))
    return and_(lt(m, x), lt(x, sub(toreal(mcols(img)), n)), lt(m, y), lt(y, sub(toreal(mrows(img)), n)))
def bilinear(img, x, y, i, j):
    """image value at (x + j, y + i)"""
    x0, y0 = trunc(x), trunc(y)
    u, v = sub(x, toreal(x0)), sub(y, toreal(y0))
    one = Rl(1)
    return add(mul(tm.at(img, add(y0, i), add(x0, j)), sub(one, u), sub(one, v)), mul(tm.at(img, add(y0, i), add(x0, j, I(1))), u, sub(one, v)),
               mul(tm.at(img, add(y0, i, I(1)), add(x0, j)), sub(one, u), v), mul(tm.at(img, add(y0, i, I(1)), add(x0, j, I(1))), u, v))
DMAX, DMIN = Rl(Fraction(repr(1.7976931348623157e308))), Rl(Fraction(repr(2.2250738585072014e-308)))
def patch(x, y, h, img, mask, b):
    """(contrast is sufficient, the values of the kept window positions)"""
    i, j = bvar('y', 'I'), bvar('x', 'I')
    dom = ((i, window(h)), (j, window(h)))
    keep = lambda i, j: le(I(1), trunc(tm.at(mask, I(0), number(h, i, j))))
    val = bilinear(img, x, y, i, j)
    lo = loops.finish(DMAX, [(dom, keep(i, j), 'min', (val,))])
    hi = loops.finish(DMIN, [(dom, keep(i, j), 'max', (val,))])
    return lt(Rl(Fraction(1, 255)), sub(hi, lo)), loops.finish(b, [(dom, keep(i, j), 'mset', (running(h, i, j, keep), I(0), val))])

# the vector of values before they are computed (it has one row for every kept position of the window, see claims)
B0 = mkraw('mundef', (sym('rows of b', 'I'), I(1), I(6)), 'M')
def patch_of(k, b0):
    x, y, h, img, mask = [k.arg(i) for i in range(5)]
    good, v = patch(x, y, h, img, mask, b0)
    ok = and_(in_patch(x, y, h, img), good)
    return ok, v
def patch_done(ex, st, k, got):
    ok, v = patch_of(k, k.arg(5))
    b = ex.deref(st, st.d[('v', 'arg', 5)])
    return [('returned value', got, ok), ('the interpolated values', ite(got, b, B0), ite(ok, v, B0))]
@contract(NSP + 'interpolatePatch', 'C17', bounds=(3,), inputs={5: B0}, partial=(5,), after=patch_done)
def _(k):
    """the image values at the kept positions of the window around the point, if the window lies inside the image and is not flat (without
    meaning otherwise)"""
    ok, v = patch_of(k, B0)
    k.setarg(5, v)
    k.ret(ok)

FIELDS = 'x y a1 a2 s det'.split()
INF = mkraw('const', ('std::numeric_limits::infinity',), 'R')
def refine(k, img, init, F, mask, h, most, tight, eps):
    """every point on its own: Newton steps to the saddle of the quadric fitted to the window around it, until the step is below the
    threshold; the point is given up (infinite) when the window leaves the image or is flat, the fit is no saddle, the point moves away
    too far or the iterations are used up"""
    reach = ite(tight, Rl(1), toreal(h))
    so = sort_of('McCalib::SaddlePoint')
    k.var('all', vnil(so))
    def point(k, i):
        x0, y0 = [sel(vget(init, i), j) for j in (0, 1)]
        for f in FIELDS: k.var(f, {'x': x0, 'y': y0}.get(f) or mkraw('undef', ('McCalib::SaddlePoint', f), 'R'))
        k.var('failed', TRUE); k.var('going', TRUE)
        def step(k, it):
            x, y = k.get('x'), k.get('y')
            ok, v = patch(x, y, h, img, mask, B0)
            inside = in_patch(x, y, h, img)
            p = mmul(F, v)
            r = [tm.at(p, I(j), I(0)) for j in range(6)]
            det = sub(mul(Rl(4), r[0], r[1]), mul(r[2], r[2]))
            dx = rdiv(add(mul(Rl(-2), r[1], r[4]), mul(r[2], r[3])), det)
            dy = rdiv(sub(mul(r[2], r[4]), mul(Rl(2), r[0], r[3])), det)
            s = lib_.uf('sqrt', 'R', add(mul(r[2], r[2]), mul(sub(r[1], r[0]), sub(r[1], r[0]))))
            def stop(k): k.let('going', FALSE)
            def saddle(k):
                k.let('x', add(x, dx)); k.let('y', add(y, dy))
                def done(k):
                    k.let('s', s)
                    k.let('a1', rdiv(lib_.uf('atan2', 'R', neg(r[2]), sub(r[1], r[0])), Rl(2)))
                    k.let('a2', rdiv(lib_.uf('acos', 'R', rdiv(add(r[1], r[0]), s)), Rl(2)))
                    k.let('failed', FALSE); stop(k)
                def more(k): k.when(or_(lt(reach, absr(sub(k.get('x'), x0))), lt(reach, absr(sub(k.get('y'), y0)))), stop)
                k.when(and_(lt(absr(dx), eps), lt(absr(dy), eps)), done, more)
            def fit(k):
                k.let('det', det)
                k.when(lt(Rl(0), det), stop, saddle)
            k.when(k.get('going'), lambda k: k.when(and_(inside, ok), fit, stop))
        k.each(drange(I(0), most), step)
        bad = k.get('failed')
        k.let('all', vpush(k.get('all'), mk(so, *[ite(bad, INF, k.get(f)) if f in 'xy' else k.get(f) for f in FIELDS])))
    k.each(drange(I(0), vlen(init)), point)
    return k.get('all')
@contract(NSP + 'saddleSubpixelRefinement', 'C17', nargs=9)
def _(k): k.setarg(5, refine(k, *[k.arg(i) for i in (0, 1, 2, 3, 4, 6, 7, 8)]))

def saddle_points(k, image, init, h, most):
    W, mask, n = cone_kernel(h)
    mask, F = saddle_fit(h, n, W, mask)
    smooth = mkraw('out', (mkraw('call:cv::filter2D', (image, I(6), W, mk(('st', 'Point2', 'I', 'I'), I(-1), I(-1)), Rl(0), I(4)), 'C'), 1), 'M')    # anchor, offset and border mode are the defaults
    return refine(k, smooth, init, F, mask, h, most, TRUE, Rl(Fraction(1, 1000)))
@contract(NSP + 'saddleSubpixelRefinement', 'C17', nargs=5)
def _(k): k.setarg(2, saddle_points(k, *[k.arg(i) for i in (0, 1, 3, 4)]))

# ------------------------------------------------ the boards of an image
def seen(k, image, i):
    """corners of board i in the image, with their numbers on the board"""
    B = mget(k.f('boards_3d_'), i)
    board = k.f('charuco_board_', B, 'Board')
    P = k.f('charuco_params_')
    det = mkraw('call:cv::aruco::detectMarkers', (image, mget(k.col('cv::aruco::Board', 'dictionary'), board), P, mget(k.col('cv::aruco::DetectorParameters', 'adaptiveThreshConstant'), P)), 'C')
    vp = ('vec', ('st', 'Point2', 'R', 'R'))
    mc, ids = mkraw('out', (det, 2), ('vec', vp)), mkraw('out', (det, 3), ('vec', 'I'))
    none = default('M')
    itp = mkraw('call:cv::aruco::interpolateCornersCharuco', (mc, ids, image, board, none, none, I(2)), 'C')
    found = lt(I(0), vlen(mc))
    return ite(found, mkraw('out', (itp, 4), vp), vnil(vp[1])), ite(found, mkraw('out', (itp, 5), ('vec', 'I')), vnil('I'))

CAL = NSP + 'Calibration::'
def infinite(p): return or_(*[lib_.uf('isinf', 'B', sel(p, j)) for j in (0, 1)])
@contract(CAL + 'detectBoardsInImageWithCamera', ['C17', 'C12'], steps=(CAL + 'insertNewBoard', NSP + 'saddleSubpixelRefinement', NSP + 'calcLinePara'))
def _(k):
    """every board of which more than the required share of corners is seen, more than four and not along one line, becomes an observation of
    this camera and frame; its corners are refined to the saddle points found, up to the first corner without one"""
    path, cam, frame = [k.arg(i) for i in range(3)]
    image = mkraw('ret', (mkraw('call:cv::imread', (path, I(1)), 'C'),), 'M')
    gray = mkraw('out', (mkraw('call:cv::cvtColor', (image, I(6), I(0)), 'C'), 1), 'M')
    def board(k, i):
        B = mget(k.f('boards_3d_'), i)
        b = lambda f: k.f(f, B, 'Board')
        pts, ids = seen(k, image, i)
        share = trunc(lib_.uf('round', 'R', mul(k.f('min_perc_pts_'), toreal(b('nb_pts_')))))
        def enough(k):
            k.var('pts', pts); k.var('refined', vnil(sort_of('McCalib::SaddlePoint'))); k.var('residual', Rl(0))
            def better(k):
                k.call(NSP + 'saddleSubpixelRefinement', None, gray, pts, k.ref('refined'), k.f('corner_ref_window_'), k.f('corner_ref_max_iter_'))
                r = k.get('refined')
                b = bvar('k', 'I')
                dom = duntil(drange(I(0), vlen(pts)), lam(b, infinite(vget(r, b))))
                k.each(dom, lambda k, j: k.let('pts', vset(k.get('pts'), j, pt2(sel(vget(r, j), 0), sel(vget(r, j), 1)))))
            k.when(k.f('refine_corner_'), better)
            on = collect(P2, drange(I(0), vlen(ids)), lambda j: pt2(sel(vget(b('pts_3d_'), vget(ids, j)), 0), sel(vget(b('pts_3d_'), vget(ids, j)), 1)))
            for x in 'abc': k.var(x, Rl(0))
            k.call(NSP + 'calcLinePara', None, on, *[k.ref(x) for x in 'abc'], k.ref('residual'))
            pts_ = k.get('pts')
            ok = and_(lt(mul(b('square_size_'), Rl(Fraction(1, 10))), k.get('residual')), lt(I(4), vlen(pts_)))
            k.when(ok, lambda k: k.call(CAL + 'insertNewBoard', k.this, cam, frame, i, pts_, ids, path))
        k.when(lt(share, vlen(pts)), enough)
    k.when(not_(eq(mkraw('mtotal', (image,), 'I'), I(0))), lambda k: k.each(drange(I(0), k.f('nb_board_')), board))

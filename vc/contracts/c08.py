"""C08: the coordinates of every object point are the point of its board moved by the board's pose"""
from .base import *
from .c02 import moved
M = 'McCalib::'

def move_points(k):
    """every object point takes the place its board's pose gives it; the tables stay as they are"""
    def one(k, key, board):
        b = k.f('board_id_', board, 'Board')
        pts = k.f('pts_3d_', board, 'Board')
        six = mget(k.f('relative_board_pose_'), b)
        R, t = rodr(rvec(six)), tvec(six)
        def point(k, i):
            at_ = mget(k.f('pts_board_2_obj_'), pair(b, i))
            k.setf('pts_3d_', vset(k.f('pts_3d_'), at_, moved(R, t, vget(pts, i))))
        k.each(drange(I(0), vlen(pts)), point)
    k.over(k.f('boards_'), one)

@contract(M + 'Object3D::updateObjectPts', 'C08')
def _(k): move_points(k)

"""vocabulary shared by the contracts"""
from terms import *
import terms as tm
from spec import *
import lib as lib_
from lib import rodr, rodrv, rt4, rot3, trn3

P6 = ('arr', 6, 'R')
def vec3(*e): return mat((3, 1, 'd'), [toreal(x) for x in e])
def rvec(p6): return vec3(*[sel(p6, i) for i in range(3)])
def tvec(p6): return vec3(*[sel(p6, i) for i in range(3, 6)])
def P4(p6):
    """the 4x4 matrix [R(r) t; 0 0 0 1] of a stored pose vector"""
    return rt4(rodr(rvec(p6)), tvec(p6))
def ent(M, i): return tm.at(M, I(i), I(0))
def V6(P):
    """stored pose vector of a 4x4 matrix: Rodrigues vector of its rotation, then its translation"""
    r, t = rodrv(rot3(P)), trn3(P)
    return mk(P6, *([ent(r, i) for i in range(3)] + [ent(t, i) for i in range(3)]))
def V33(r, t): return mk(P6, *([at1(r, i) for i in range(3)] + [at1(t, i) for i in range(3)]))
def at1(M, i):
    s = shape(M)
    if s is None: return mkraw('at1', (M, I(i)), 'R')
    return tm.at(M, I(i), I(0)) if s[1] == 1 else tm.at(M, I(0), I(i))
M44 = (4, 4, 'd'); M33 = (3, 3, 'd'); M31 = (3, 1, 'd'); M13 = (1, 3, 'd'); EMPTY = (0, 0, None)
def obs_pose(k, cls, o):
    """pose matrix stored in a board or object observation"""
    return P4(k.f('pose_', o, cls))
def group_obs_pose(k, g, i): return P4(mget(k.f('object_pose_', g, 'CameraGroupObs'), i))
def board_pose(k, o, b): return P4(mget(k.f('relative_board_pose_', o, 'Object3D'), b))
def camera_pose(k, g, c): return P4(mget(k.f('relative_camera_pose_', g, 'CameraGroup'), c))
def sub_object(k, field, ref=None): return mkraw('sub', (field, k.this if ref is None else ref), 'Ref')

#include "scene.hpp"
// exact observations, slightly wrong parameters: a refinement recovers zero residuals, leaves the reference and everything else alone
typedef std::array<double, 6> P6;
static P6 off(const M4 &P, double a = 0.02, double t = 0.03) { V3 r = rrot(); r = r * (a / std::sqrt(r.dot(r))); return vec6(P * pose(r, rvec3(t))); }
static double px(const cv::Point2f &a, const cv::Point2d &b) { return std::hypot(a.x - b.x, a.y - b.y); }
static Lens lensOf(const Camera &c) { Lens L; L.model = c.distortion_model_; auto &v = c.intrinsics_; L.fx = v[0]; L.fy = v[1]; L.u0 = v[2]; L.v0 = v[3]; for (int i = 0; i < 5; i++) L.d[i] = v[4 + i]; return L; }
template <class A> static void same(const A &a, const A &b, const char *what) { REQUIRE(a == b, "%s changed", what); }
static std::map<int, std::array<double, 9>> lenses(Scene &s) { std::map<int, std::array<double, 9>> r; for (auto &e : s.C->cams_) r[e.first] = e.second->intrinsics_; return r; }
// an observation that must not be used: wrong points
static void spoil(Seen &x) { for (auto &p : x.obs->pts_2d_) p += cv::Point2f(uni(20, 60), uni(20, 60)); x.obs->valid_ = false; }
static V3 onBoard(Scene &s, int b, int i) { return v3(s.C->boards_3d_[b]->pts_3d_[i]); }

CASE(intrinsics, 20) {
  Scene s(irand(1, 2), irand(1, 2), 8, 5, 5, irand(0, 1));
  for (int f = 0; f < 8; f++) for (int c = 0; c < s.nc; c++) for (int b = 0; b < s.nb; b++) { s.motions[{0, f}] = pose(rrot(0.7), rvec3(.2)); auto &x = s.see(c, f, b, irand(8, 16)); if (coin(.15)) spoil(x); x.obs->pose_ = off(s.truth(c, f, b), .01, .02); }
  int c = irand(0, s.nc - 1); auto &cam = *s.C->cams_[c];
  for (int i = 0; i < 4; i++) cam.intrinsics_[i] *= uni(.99, 1.01);
  auto in = lenses(s); std::vector<P6> before; for (auto &x : s.seen) before.push_back(x.obs->pose_);
  cam.refineIntrinsicCalibration(200);
  size_t n = 0, valid = 0;
  for (auto &x : s.seen) {
    P6 b = before[n++];
    if (x.cam != c || !x.obs->valid_) { same(b, x.obs->pose_, "pose of an observation of another camera or of an invalid one"); continue; }
    valid++;
    for (size_t i = 0; i < x.ids.size(); i++) REQUIRE(px(x.pts[i], project(lensOf(cam), xf(stored(x.obs->pose_), onBoard(s, x.board, x.ids[i])))) < .1, "an exact observation keeps a residual");
  }
  for (auto &e : in) if (e.first != c || !valid) same(e.second, s.C->cams_[e.first]->intrinsics_, "lens of another camera");
}
static void views(Scene &s, int per = -1) { for (int f = 0; f < s.nf; f++) for (int c = 0; c < s.nc; c++) for (int b = 0; b < s.nb; b++) if (coin(.85)) s.see(c, f, b, per < 0 ? (coin() ? -1 : irand(9, 16)) : per); }
CASE(object, 20) {
  Scene s(irand(1, 2), irand(2, 5), 4, 5, 5); views(s);
  auto parts = partition(s.nb, irand(1, 2)); for (size_t i = 0; i < parts.size(); i++) s.object(i, parts[i]);
  s.C->initAll3DObjectObs();
  for (auto &x : s.seen) if (coin(.1)) spoil(x);
  int t = irand(0, (int)parts.size() - 1);
  for (auto &e : s.C->object_3d_) for (auto &p : e.second->relative_board_pose_) if (p.first != e.second->ref_board_id_) p.second = off(stored(p.second));
  for (auto &e : s.C->object_observations_) e.second->pose_ = off(s.truth(e.second->camera_id_, e.second->frame_id_, s.C->object_3d_[e.second->object_3d_id_]->ref_board_id_));
  std::map<int, P6> obs; for (auto &e : s.C->object_observations_) obs[e.first] = e.second->pose_;
  std::map<int, std::map<int, P6>> rel; for (auto &e : s.C->object_3d_) rel[e.first] = e.second->relative_board_pose_;
  auto in = lenses(s);
  auto &o = *s.C->object_3d_[t]; o.refineObject(200);
  same(in, lenses(s), "a lens");
  for (auto &e : s.C->object_3d_) if (e.first != t) same(rel[e.first], e.second->relative_board_pose_, "a board pose of another object");
  same(rel[t][o.ref_board_id_], o.relative_board_pose_[o.ref_board_id_], "the pose of the reference board");
  for (auto &e : s.C->object_observations_) {
    auto &q = *e.second;
    if (q.object_3d_id_ != t) { same(obs[e.first], q.pose_, "the pose of an observation of another object"); continue; }
    for (auto &w : q.board_observations_) {
      auto b = w.second.lock(); if (!b->valid_) continue;
      for (size_t i = 0; i < b->charuco_id_.size(); i++) REQUIRE(px(b->pts_2d_[i], project(s.lens[q.camera_id_], xf(stored(q.pose_) * stored(o.relative_board_pose_[b->board_id_]), onBoard(s, b->board_id_, b->charuco_id_[i])))) < .05, "an exact observation keeps a residual");
    }
  }
  for (size_t j = 0; j < o.pts_3d_.size(); j++) { auto k = o.pts_obj_2_board_[j]; near(v3(o.pts_3d_[j]), xf(stored(o.relative_board_pose_[k.first]), onBoard(s, k.first, k.second)), 1e-5, "object point after the refinement"); }
}
static void groups(int mode) {
  Scene s(irand(2, 4), irand(2, 5), 4, 5, 5, mode == 2 ? irand(0, 1) : -1); views(s); auto &C = *s.C;
  auto parts = partition(s.nb, irand(1, 2)); for (size_t i = 0; i < parts.size(); i++) { for (int b : parts[i]) s.carrier[b] = 0; s.object(i, parts[i]); }
  C.initAll3DObjectObs();
  auto cams = partition(s.nc, irand(1, 2));
  for (size_t i = 0; i < cams.size(); i++) { auto g = s.group(i, cams[i]); for (auto &f : C.frames_) g->insertNewFrame(f.second); }
  C.initAllCameraGroupObs();
  for (auto &e : C.cams_group_obs_) for (auto &q : e.second->object_observations_) {
    auto o = q.second.lock();
    e.second->object_pose_[o->object_3d_id_] = off(s.cam[C.cam_group_[e.second->cam_group_idx_]->id_ref_cam_] * s.mot(0, o->frame_id_) * s.board[C.object_3d_[o->object_3d_id_]->ref_board_id_], .01, .02);
  }
  for (auto &e : C.cam_group_) for (auto &p : e.second->relative_camera_pose_) if (p.first != e.second->id_ref_cam_) p.second = off(stored(p.second), .01, .02);
  if (mode) for (auto &e : C.object_3d_) for (auto &p : e.second->relative_board_pose_) if (p.first != e.second->ref_board_id_) p.second = off(stored(p.second), .01, .02);
  int t = irand(0, (int)cams.size() - 1); auto &g = *C.cam_group_[t];
  if (mode == 2) for (int c : cams[t]) for (int i = 0; i < 2; i++) C.cams_[c]->intrinsics_[i] *= uni(.998, 1.002);
  auto in = lenses(s);
  std::map<std::pair<int, int>, std::map<int, P6>> op; std::map<int, std::map<int, P6>> rel, cp; for (auto &e : C.object_3d_) rel[e.first] = e.second->relative_board_pose_;
  for (auto &e : C.cam_group_) cp[e.first] = e.second->relative_camera_pose_;
  for (auto &e : C.cams_group_obs_) op[{e.first.first, e.first.second}] = e.second->object_pose_;
  for (auto &e : C.object_observations_) { e.second->pose_ = off(rpose()); e.second->group_pose_ = off(rpose()); }
  std::map<int, P6> obs; for (auto &e : C.object_observations_) obs[e.first] = e.second->pose_;
  if (mode == 0) g.refineCameraGroup(200); else if (mode == 1) g.refineCameraGroupAndObjects(200); else g.refineCameraGroupAndObjectsAndIntrinsics(200);
  for (auto &e : in) if (mode < 2 || !g.cameras_.count(e.first)) same(e.second, C.cams_[e.first]->intrinsics_, "a lens that is not refined");
  for (auto &e : C.object_observations_) same(obs[e.first], e.second->pose_, "the pose of an object observation");
  for (auto &e : C.object_3d_) { if (!mode) same(rel[e.first], e.second->relative_board_pose_, "a board pose"); same(rel[e.first][e.second->ref_board_id_], e.second->relative_board_pose_[e.second->ref_board_id_], "the pose of a reference board"); }
  for (auto &e : C.cam_group_) { if (e.first != t) same(cp[e.first], e.second->relative_camera_pose_, "a camera pose of another group"); same(cp[e.first][e.second->id_ref_cam_], e.second->relative_camera_pose_[e.second->id_ref_cam_], "the pose of the reference camera"); }
  for (auto &e : C.cams_group_obs_) {
    auto &q = *e.second;
    if (q.cam_group_idx_ != t) { same(op[{e.first.first, e.first.second}], q.object_pose_, "an object pose in another group"); continue; }
    for (auto &w : q.object_observations_) {
      auto o = w.second.lock(); auto &obj = *C.object_3d_[o->object_3d_id_];
      M4 P = stored(g.relative_camera_pose_[o->camera_id_]) * stored(q.object_pose_[o->object_3d_id_]);
      for (size_t i = 0; i < o->pts_id_.size(); i++) {
        auto k = obj.pts_obj_2_board_[o->pts_id_[i]];
        V3 x = mode ? xf(stored(obj.relative_board_pose_[k.first]), onBoard(s, k.first, k.second)) : v3(obj.pts_3d_[o->pts_id_[i]]);
        REQUIRE(px(o->pts_2d_[i], project(lensOf(*C.cams_[o->camera_id_]), xf(P, x))) < .1, "an exact observation keeps a residual of %g", px(o->pts_2d_[i], project(lensOf(*C.cams_[o->camera_id_]), xf(P, x))));
      }
    }
  }
}
CASE(camera_group, 12) { groups(0); }
CASE(camera_group_and_objects, 12) { groups(1); }
CASE(camera_group_objects_and_intrinsics, 8) { groups(2); }
CASE(fixed_intrinsics, 6) {
  TmpDir t; fs::path cams = t.p / "cams.yml";
  Lens L = rlens(0); bool fix = coin(.8);
  { cv::FileStorage f(cams.string(), cv::FileStorage::WRITE);
    f << "camera_0" << "{" << "camera_matrix" << (cv::Mat_<double>(3, 3) << L.fx, 0, L.u0, 0, L.fy, L.v0, 0, 0, 1) << "distortion_vector" << (cv::Mat_<double>(1, 5) << L.d[0], L.d[1], L.d[2], L.d[3], L.d[4]) << "}"; }
  auto C = calib(Config(1, 1, 5, 5).set("fix_intrinsic", fix ? "1" : "0").set("cam_params_path", "\"" + cams.string() + "\""), t);
  C->cams_[0]->im_cols_ = 640; C->cams_[0]->im_rows_ = 480;
  for (int f = 0; f < 6; f++) {
    M4 P = pose(rrot(.6), V3(uni(-.2, .2), uni(-.2, .2), uni(3, 4)));
    std::vector<cv::Point2f> p; std::vector<int> id;
    for (int i = 0; i < 16; i++) { auto q = project(L, xf(P, v3(C->boards_3d_[0]->pts_3d_[i]))); p.push_back(cv::Point2f(q.x + uni(-2, 2), q.y + uni(-2, 2))); id.push_back(i); }
    C->insertNewBoard(0, f, 0, p, id, "img");
  }
  C->initIntrinsic();
  std::array<double, 9> want = {L.fx, L.fy, L.u0, L.v0, L.d[0], L.d[1], L.d[2], L.d[3], L.d[4]};
  bool same = true; for (int i = 0; i < 9; i++) same = same && std::abs(C->cams_[0]->intrinsics_[i] - want[i]) < 1e-9 * (1 + std::abs(want[i]));
  REQUIRE(same == fix, fix ? "fixed intrinsics changed" : "intrinsics were not refined");
}

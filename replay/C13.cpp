#include "scene.hpp"
static double pix(const cv::Point2f &a, const cv::Point2d &b) { return std::hypot(a.x - b.x, a.y - b.y); }
CASE(projection, 100) {
  Lens L = rlens(irand(0, 1)); Camera cam(0, 0); setLens(cam, L);
  M4 P = pose(rrot(), V3(uni(-.5, .5), uni(-.5, .5), uni(4, 8)));
  V3 r = logrot(M3(P(0, 0), P(0, 1), P(0, 2), P(1, 0), P(1, 1), P(1, 2), P(2, 0), P(2, 1), P(2, 2)));
  std::vector<cv::Point3f> pts; int n = irand(1, 20);
  for (int i = 0; i < n; i++) pts.push_back(cv::Point3f(uni(-1, 1), uni(-1, 1), uni(-1, 1)));
  std::vector<cv::Point2f> out;
  projectPointsWithDistortion(pts, col(r), col(V3(P(0, 3), P(1, 3), P(2, 3))), cam.getCameraMat(), cam.getDistortionVectorVector(), L.model, out);
  REQUIRE((int)out.size() == n, "%zu image points of %d points", out.size(), n);
  for (int i = 0; i < n; i++) { auto q = project(L, xf(P, v3(pts[i]))); REQUIRE(pix(out[i], q) < 1e-2, "point %d: (%g,%g) instead of (%g,%g), lens model %d", i, out[i].x, out[i].y, q.x, q.y, L.model); }
}
CASE(distances, 60) {
  TmpDir t; static std::shared_ptr<Calibration> C; if (!C) C = calib(Config(1, 1, 3, 3), t);
  int n = irand(0, 12); std::vector<cv::Point2f> a, b;
  double s = coin() ? 1e-2 : 500;
  for (int i = 0; i < n; i++) { a.push_back(cv::Point2f(uni(0, 640), uni(0, 480))); b.push_back(a.back() + cv::Point2f(uni(-s, s), uni(-s, s))); }
  for (int i = irand(0, 2); i > 0; i--) a.push_back(cv::Point2f(uni(0, 640), uni(0, 480)));
  cv::Mat d = C->computeDistanceBetweenPoints(a, b);
  REQUIRE(d.rows * d.cols == n, "%d distances of %d points", d.rows * d.cols, n);
  for (int i = 0; i < n; i++) near(d.at<float>(i), std::hypot(a[i].x - b[i].x, a[i].y - b[i].y), 1e-3, "distance");
}
static void world(Scene &s) {
  for (int f = 0; f < s.nf; f++) for (int c = 0; c < s.nc; c++) for (int b = 0; b < s.nb; b++) if (coin(.7)) s.see(c, f, b, coin() ? -1 : irand(1, 16), coin(.8) ? 3 : 0);
  auto parts = partition(s.nb, irand(1, s.nb));
  for (size_t i = 0; i < parts.size(); i++) s.object(i, parts[i]);
}
CASE(boards, 60) {
  Scene s(irand(1, 3), irand(1, 3), irand(1, 3), 5, 5); world(s); auto &C = *s.C;
  for (auto &x : s.seen) {
    auto b = x.obs; double sum = 0; M4 P = s.truth(x.cam, x.frame, x.board) * pose(rrot(0.02), rvec3(.02));
    b->pose_ = vec6(P);
    for (size_t i = 0; i < x.ids.size(); i++) sum += pix(x.pts[i], project(s.lens[x.cam], xf(P, v3(C.boards_3d_[x.board]->pts_3d_[x.ids[i]]))));
    double want = x.ids.empty() ? 0 : sum / x.ids.size(), got = b->computeReprojectionError();
    REQUIRE(std::abs(got - want) < 1e-2 * (1 + want), "board error %g instead of %g", got, want);
  }
}
CASE(objects, 60) {
  Scene s(irand(1, 3), irand(1, 4), irand(1, 3), 5, 5); world(s); auto &C = *s.C;
  C.initAll3DObjectObs();
  for (auto &e : C.object_observations_) {
    auto &o = *e.second; auto obj = o.object_3d_.lock(); double sum = 0;
    M4 P = s.truth(o.camera_id_, o.frame_id_, obj->ref_board_id_) * pose(rrot(0.02), rvec3(.02)); o.pose_ = vec6(P);
    for (size_t i = 0; i < o.pts_id_.size(); i++) sum += pix(o.pts_2d_[i], project(s.lens[o.camera_id_], xf(P, v3(obj->pts_3d_[o.pts_id_[i]]))));
    double want = sum / o.pts_id_.size(), got = o.computeReprojectionError();
    REQUIRE(std::abs(got - want) < 1e-2 * (1 + want), "object error %g instead of %g", got, want);
  }
}
CASE(average, 60) {
  Scene s(irand(1, 4), irand(1, 4), irand(1, 4), 5, 5); world(s); auto &C = *s.C;
  C.initAll3DObjectObs();
  auto cams = partition(s.nc, irand(1, s.nc));
  for (size_t i = 0; i < cams.size(); i++) {
    auto g = s.group(i, cams[i]);
    for (int f = 0; f < s.nf; f++) if (C.frames_.count(f)) g->insertNewFrame(C.frames_[f]);
  }
  C.initAllCameraGroupObs();
  double sum = 0; int n = 0;
  for (auto &e : C.cams_group_obs_) {
    auto &g = *e.second; auto grp = C.cam_group_[g.cam_group_idx_];
    for (auto &q : g.object_observations_) { auto o = q.second.lock(); g.object_pose_[o->object_3d_id_] = vec6(s.cam[grp->id_ref_cam_] * s.mot(0, o->frame_id_) * s.board[o->object_3d_.lock()->ref_board_id_] * pose(rrot(.02), rvec3(.02))); }
    for (auto &q : g.object_observations_) {
      auto o = q.second.lock(); auto obj = o->object_3d_.lock(); double m = 0;
      M4 P = stored(grp->relative_camera_pose_[o->camera_id_]) * stored(g.object_pose_[o->object_3d_id_]);
      for (size_t i = 0; i < o->pts_id_.size(); i++) m += pix(o->pts_2d_[i], project(s.lens[o->camera_id_], xf(P, v3(obj->pts_3d_[o->pts_id_[i]]))));
      sum += m / o->pts_id_.size(); n++;
    }
  }
  if (!n) return;
  double want = sum / n, got = C.computeAvgReprojectionError();
  REQUIRE(std::abs(got - want) < 1e-2 * (1 + want), "average error %g instead of %g over %d observations", got, want, n);
}

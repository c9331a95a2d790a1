#include "measured.hpp"
// the tables of an object name exactly the points of its boards, are inverse to each other, and
// every point is where the pose of its board puts it
static void consistent(Calibration &C, Object3D &O, const char *when) {
  size_t n = 0;
  for (auto &e : O.boards_) {
    auto b = e.second.lock();
    REQUIRE(b && b->board_id_ == e.first, "%s: board entry %d", when, e.first);
    REQUIRE(O.relative_board_pose_.count(e.first), "%s: board %d has no pose", when, e.first);
    M4 T = stored(O.relative_board_pose_[e.first]);
    for (int i = 0; i < (int)b->pts_3d_.size(); i++, n++) {
      auto it = O.pts_board_2_obj_.find({e.first, i});
      REQUIRE(it != O.pts_board_2_obj_.end(), "%s: point %d of board %d is not in the table", when, i, e.first);
      int k = it->second;
      REQUIRE(k >= 0 && k < (int)O.pts_obj_2_board_.size() && k < (int)O.pts_3d_.size(), "%s: point %d of board %d has number %d", when, i, e.first, k);
      REQUIRE(O.pts_obj_2_board_[k] == std::make_pair(e.first, i), "%s: object point %d refers to (%d,%d), the table to (%d,%d)", when, k, O.pts_obj_2_board_[k].first, O.pts_obj_2_board_[k].second, e.first, i);
      V3 p = xf(T, v3(b->pts_3d_[i]));
      auto &q = O.pts_3d_[k];
      double d = std::hypot(q.x - p[0], std::hypot(q.y - p[1], q.z - p[2]));
      REQUIRE(d < 1e-4, "%s: object point %d (board %d point %d) is %g away from its place", when, k, e.first, i, d);
    }
  }
  REQUIRE(O.pts_board_2_obj_.size() == n && O.pts_obj_2_board_.size() == n && O.pts_3d_.size() == n && O.nb_pts_ == (int)n, "%s: %zu points in the boards, tables have %zu and %zu, object has %zu (nb_pts_ %d)", when, n, O.pts_board_2_obj_.size(), O.pts_obj_2_board_.size(), O.pts_3d_.size(), O.nb_pts_);
}
static void shapes(Scene &s) { // boards of different sizes with points of their own
  for (auto &e : s.C->boards_3d_) {
    auto &b = *e.second; int n = irand(4, 20); b.pts_3d_.clear();
    for (int i = 0; i < n; i++) b.pts_3d_.push_back(cv::Point3f(uni(0, 1), uni(0, 1), coin() ? 0 : uni(0, .3)));
    b.nb_pts_ = n;
  }
}
static void see(Scene &s) { // object observations refer to object points through the tables
  auto &C = *s.C;
  for (auto &e : C.object_3d_) for (auto &eb : e.second->boards_) if (coin(.7)) {
    auto b = eb.second.lock(); int f = irand(0, s.nf - 1);
    bool dup = false; for (auto &x : s.seen) if (x.cam == 0 && x.frame == f && x.board == eb.first) dup = true;
    if (!dup) s.see(0, f, eb.first, irand(1, b->nb_pts_));
  }
  C.initAll3DObjectObs();
  std::set<std::pair<int, int>> frames;
  size_t total = 0;
  for (auto &e : C.object_observations_) {
    auto &o = *e.second; auto obj = o.object_3d_.lock();
    std::vector<int> want; std::vector<cv::Point2f> px;
    for (auto &bo : o.board_observations_) { auto b = bo.second.lock(); for (size_t i = 0; i < b->pts_2d_.size(); i++) { want.push_back(obj->pts_board_2_obj_.at({b->board_id_, b->charuco_id_[i]})); px.push_back(b->pts_2d_[i]); } total++; }
    REQUIRE(o.pts_id_ == want && o.pts_2d_.size() == px.size(), "an observation refers to other object points than its boards show");
    for (size_t i = 0; i < px.size(); i++) REQUIRE(o.pts_2d_[i] == px[i], "image point %zu of an object observation is not that of its object point", i);
  }
  REQUIRE(total == C.board_observations_.size(), "%zu of %zu board observations belong to object observations", total, C.board_observations_.size());
  for (auto &e : C.object_3d_) consistent(C, *e.second, "after observing");
}
CASE(created, 60) {
  Scene s(1, irand(1, 6), 3, 3, 3); auto &C = *s.C; shapes(s);
  auto cs = comps(s.nb);
  measure(C.covis_boards_graph_, C.inter_board_transform_, cs, [&](int a, int b) { return inv(s.board[b]) * s.board[a]; });
  C.init3DObjects();
  for (auto &e : C.object_3d_) consistent(C, *e.second, "after creation");
  see(s);
}
CASE(merged, 60) {
  Scene s(1, irand(1, 8), 3, 3, 3); auto &C = *s.C; shapes(s);
  auto parts = partition(s.nb, irand(1, s.nb));
  for (size_t i = 0; i < parts.size(); i++) s.object(i, parts[i]);
  auto cs = comps(parts.size());
  measure(C.covis_objects_graph_, C.inter_object_transform_, cs, [&](int a, int b) { return inv(s.board[parts[b][0]]) * s.board[parts[a][0]]; });
  C.mergeObjects();
  for (auto &e : C.object_3d_) consistent(C, *e.second, "after merging");
  see(s);
}
CASE(updated, 60) {
  Scene s(1, irand(1, 6), 3, 3, 3); auto &C = *s.C; shapes(s);
  auto parts = partition(s.nb, irand(1, s.nb));
  for (size_t i = 0; i < parts.size(); i++) s.object(i, parts[i]);
  for (auto &e : C.object_3d_) {
    for (auto &p : e.second->relative_board_pose_) p.second = vec6(pose(rrot(), rvec3(1)));
    e.second->updateObjectPts();
    consistent(C, *e.second, "after an update");
  }
}
CASE(refined, 8) {
  Scene s(1, irand(2, 4), 4, 3, 3); auto &C = *s.C;
  for (int b = 0; b < s.nb; b++) s.board[b] = pose(rrot(0.4), rvec3(.2));
  shapes(s);
  std::vector<int> all; for (int b = 0; b < s.nb; b++) all.push_back(b);
  auto o = s.object(0, all);
  for (int f = 0; f < 4; f++) for (int b = 0; b < s.nb; b++) s.see(0, f, b);
  C.initAll3DObjectObs();
  for (auto &e : C.object_observations_) e.second->pose_ = vec6(s.cam[0] * s.mot(0, e.second->frame_id_) * s.board[0]);
  for (auto &p : o->relative_board_pose_) if (p.first) p.second = vec6(stored(p.second) * pose(rrot(0.02), rvec3(.01)));
  C.refineAllObject3D();
  consistent(C, *o, "after refinement");
}

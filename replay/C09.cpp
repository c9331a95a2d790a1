#include "measured.hpp"

CASE(cameras, 60) {
  Scene s(iter < 5 ? iter + 1 : irand(1, 7), 1, 1, 3, 3); auto &C = *s.C;
  auto cs = comps(s.nc);
  measure(C.covis_camera_graph_, C.inter_camera_transform_, cs, [&](int a, int b) { return s.cam[b] * inv(s.cam[a]); });
  C.initCameraGroup();
  numbered(C.cam_group_, cs.size(), "camera groups");
  for (auto &c : cs) {
    int ref = *std::min_element(c.begin(), c.end());
    int g = holder(C.cam_group_, [&](CameraGroup &x) { return x.cameras_.count(ref); });
    auto &G = *C.cam_group_[g];
    REQUIRE(G.id_ref_cam_ == ref, "reference camera %d instead of %d", G.id_ref_cam_, ref);
    REQUIRE(G.cam_group_idx_ == g && G.cameras_.size() == c.size() && G.cam_idx.size() == c.size() && G.relative_camera_pose_.size() == c.size(), "group %d has the wrong size", g);
    for (int k : c) {
      REQUIRE(G.cameras_.count(k) && G.cameras_[k].lock() == C.cams_[k] && std::count(G.cam_idx.begin(), G.cam_idx.end(), k) == 1, "camera %d is missing", k);
      near(G.getCameraPoseMat(k).empty() ? M4() : m4(G.getCameraPoseMat(k)), s.cam[k] * inv(s.cam[ref]), 1e-6, fmt("pose of camera %d in its group", k).c_str());
    }
  }
}
CASE(boards, 60) {
  Scene s(1, iter < 5 ? iter + 1 : irand(1, 7), 1, 3, 3); auto &C = *s.C;
  auto cs = comps(s.nb);
  measure(C.covis_boards_graph_, C.inter_board_transform_, cs, [&](int a, int b) { return inv(s.board[b]) * s.board[a]; });
  C.init3DObjects();
  numbered(C.object_3d_, cs.size(), "objects");
  for (auto &c : cs) {
    int ref = *std::min_element(c.begin(), c.end());
    int g = holder(C.object_3d_, [&](Object3D &x) { return x.boards_.count(ref); });
    auto &O = *C.object_3d_[g];
    REQUIRE(O.ref_board_id_ == ref && O.obj_id_ == g && O.boards_.size() == c.size() && O.relative_board_pose_.size() == c.size(), "object %d: reference %d (expected %d), %zu boards (expected %zu)", g, O.ref_board_id_, ref, O.boards_.size(), c.size());
    for (int k : c) near(m4(O.getBoardPoseMat(k)), inv(s.board[ref]) * s.board[k], 1e-6, fmt("pose of board %d in its object", k).c_str());
  }
}
CASE(merge_groups, 60) {
  Scene s(irand(1, 8), 1, 1, 3, 3); auto &C = *s.C;
  auto parts = partition(s.nc, irand(1, s.nc));
  std::map<int, int> refcam;
  for (size_t i = 0; i < parts.size(); i++) {
    auto g = s.group(i, parts[i]);
    if (coin()) { int r = parts[i][irand(0, parts[i].size() - 1)]; g->id_ref_cam_ = r; for (int c : parts[i]) g->relative_camera_pose_[c] = vec6(s.cam[c] * inv(s.cam[r])); }
    refcam[i] = g->id_ref_cam_;
  }
  auto cs = comps(parts.size());
  measure(C.no_overlap_camgroup_graph_, C.no_overlap_camgroup_pair_pose_, cs, [&](int a, int b) { return s.cam[refcam[b]] * inv(s.cam[refcam[a]]); });
  C.mergeCameraGroup();
  numbered(C.cam_group_, cs.size(), "merged camera groups");
  for (auto &c : cs) {
    int ref = refcam[*std::min_element(c.begin(), c.end())];
    int g = holder(C.cam_group_, [&](CameraGroup &x) { return x.cameras_.count(ref); });
    auto &G = *C.cam_group_[g]; size_t n = 0;
    REQUIRE(G.id_ref_cam_ == ref && G.cam_group_idx_ == g, "merged group %d: reference camera %d instead of %d", g, G.id_ref_cam_, ref);
    for (int p : c) for (int k : parts[p]) {
      n++;
      REQUIRE(G.cameras_.count(k) && std::count(G.cam_idx.begin(), G.cam_idx.end(), k) == 1, "camera %d is missing", k);
      near(m4(G.getCameraPoseMat(k)), s.cam[k] * inv(s.cam[ref]), 1e-6, fmt("pose of camera %d in the merged group", k).c_str());
    }
    REQUIRE(G.cameras_.size() == n && G.relative_camera_pose_.size() == n, "merged group %d has %zu cameras instead of %zu", g, G.cameras_.size(), n);
  }
}
CASE(merge_objects, 60) {
  Scene s(1, irand(1, 8), 1, 3, 3); auto &C = *s.C;
  auto parts = partition(s.nb, irand(1, s.nb));
  for (size_t i = 0; i < parts.size(); i++) s.object(i, parts[i]);
  auto ref = [&](int o) { return parts[o][0]; };
  auto cs = comps(parts.size());
  measure(C.covis_objects_graph_, C.inter_object_transform_, cs, [&](int a, int b) { return inv(s.board[ref(b)]) * s.board[ref(a)]; });
  C.mergeObjects();
  numbered(C.object_3d_, cs.size(), "merged objects");
  for (auto &c : cs) {
    int rb = ref(*std::min_element(c.begin(), c.end())); size_t n = 0;
    int g = holder(C.object_3d_, [&](Object3D &x) { return x.boards_.count(rb); });
    auto &O = *C.object_3d_[g];
    REQUIRE(O.ref_board_id_ == rb && O.obj_id_ == g, "merged object %d: reference board %d instead of %d", g, O.ref_board_id_, rb);
    for (int p : c) for (int k : parts[p]) { n++; REQUIRE(O.boards_.count(k), "board %d is missing", k); near(m4(O.getBoardPoseMat(k)), inv(s.board[rb]) * s.board[k], 1e-6, fmt("pose of board %d in the merged object", k).c_str()); }
    REQUIRE(O.boards_.size() == n && O.nb_boards_ == (int)n, "merged object %d has %zu boards instead of %zu", g, O.boards_.size(), n);
  }
}

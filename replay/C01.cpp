#include "common.hpp"
static const double TOL = 2e-5;   // the code keeps some values in float

static V3 rotEdge(int it) {
  // small angles, half turns (kept below pi), axis aligned
  switch (it % 8) {
  case 0: return V3(0, 0, 0);
  case 1: return V3(1e-7, -2e-7, 1e-7);
  case 2: { V3 r = rrot(); double n = std::sqrt(r.dot(r)); return r * (3.1 / n); }
  case 3: return V3(uni(-3, 3), 0, 0);
  case 4: return V3(0, uni(-3, 3), 0);
  case 5: return V3(0, 0, uni(-3, 3));
  default: return rrot(3.1);
  }
}
CASE(matrix_from_pose, 200) {
  V3 r = rotEdge(iter), t = rvec3(iter % 3 ? 5 : 1000);
  M4 P = pose(r, t);
  near(m4(RVecT2Proj(col(r), col(t))), P, TOL, "RVecT2Proj");
  near(m4(RT2Proj(cv::Mat(rot(r)), col(t))), P, TOL, "RT2Proj");
  cv::Mat R, T; Proj2RT(mat(P), R, T);
  near(rot(v3(R)) == rot(v3(R)) ? pose(v3(R), v3(T)) : P, P, 1e-6 * std::max(1.0, std::abs(t[0]) + std::abs(t[1]) + std::abs(t[2])), "Proj2RT");
  std::vector<float> v = {(float)r[0], (float)r[1], (float)r[2], (float)t[0], (float)t[1], (float)t[2]};
  near(m4(vectorProj(v)), P, 1e-3, "vectorProj");
  std::array<float, 6> w = ProjToVec(mat(P));
  near(pose(V3(w[0], w[1], w[2]), V3(w[3], w[4], w[5])), P, 1e-3, "ProjToVec");
  M3 K(500, 0, 320, 0, 510, 240, 0, 0, 1);
  M4 Q = M4::eye(); M3 KR = K * rot(r); V3 Kt = K * t;
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) Q(i, j) = KR(i, j); Q(i, 3) = Kt[i]; }
  near(m4(RVecT2ProjInt(col(r), col(t), cv::Mat(K))), Q, 1e-6 * 700 * 3000, "RVecT2ProjInt");
}
CASE(inverse, 200) {
  V3 r = rotEdge(iter), t = rvec3();
  cv::Mat a = col(r), b = col(t), c, d;
  invertRvecT(a, b, c, d);
  near(pose(v3(c), v3(d)), inv(pose(r, t)), TOL, "invertRvecT (4 arguments)");
  near(v3(a), r, 0, "invertRvecT changes its rotation argument"); near(v3(b), t, 0, "invertRvecT changes its translation argument");
  invertRvecT(a, b);
  near(pose(v3(a), v3(b)), inv(pose(r, t)), TOL, "invertRvecT (in place)");
}
// a stored pose read in every form
template <class O, class S> static void readback(const char *what, const M4 &P, O &&getmat, S &&getvec, cv::Mat rv, cv::Mat tv) {
  near(m4(getmat()), P, TOL, what);
  cv::Mat r, t; getvec(r, t);
  near(pose(v3(r), v3(t)), P, TOL, what);
  near(pose(v3(rv), v3(tv)), P, TOL, what);
}
CASE(board_obs_pose, 100) {
  auto cam = std::make_shared<Camera>(0, 0);
  BoardObs o(0, 0, 0, {}, {}, cam, nullptr);
  BoardObs other(0, 0, 0, {}, {}, cam, nullptr); other.pose_ = vec6(rpose()); auto keep = other.pose_;
  V3 r = rotEdge(iter), t = rvec3(); M4 P = pose(r, t);
  if (iter & 1) o.setPoseMat(mat(P)); else o.setPoseVec(col(r), col(t));
  readback("board observation", P, [&] { return o.getPoseMat(); }, [&](cv::Mat &a, cv::Mat &b) { o.getPoseVec(a, b); }, o.getRotVec(), o.getTransVec());
  REQUIRE(other.pose_ == keep, "another observation changed");
}
CASE(object_obs_pose, 100) {
  auto obj = std::make_shared<Object3D>(1, 0, 0, std::array<int, 3>{1, 2, 3});
  Object3DObs o(obj, 0);
  V3 r = rotEdge(iter), t = rvec3(); M4 P = pose(r, t), G = pose(rotEdge(iter + 3), rvec3());
  o.pose_ = vec6(rpose()); o.group_pose_ = vec6(rpose());
  auto keepg = o.group_pose_;
  if (iter & 1) o.setPoseMat(mat(P)); else o.setPoseVec(col(r), col(t));
  REQUIRE(o.group_pose_ == keepg, "storing the pose changes the pose in the group");
  auto keep = o.pose_;
  M4 G2 = G; auto g6 = vec6(G);
  if (iter & 2) o.setPoseInGroupMat(mat(G)); else o.setPoseInGroupVec(col(V3(g6[0], g6[1], g6[2])), col(V3(g6[3], g6[4], g6[5])));
  REQUIRE(o.pose_ == keep, "storing the pose in the group changes the pose");
  readback("object observation", P, [&] { return o.getPoseMat(); }, [&](cv::Mat &a, cv::Mat &b) { o.getPoseVec(a, b); }, o.getRotVec(), o.getTransVec());
  readback("object observation in group", G2, [&] { return o.getPoseInGroupMat(); }, [&](cv::Mat &a, cv::Mat &b) { o.getPoseInGroupVec(a, b); }, o.getRotInGroupVec(), o.getTransInGroupVec());
}
CASE(object_board_pose, 100) {
  Object3D o(3, 0, 0, {1, 2, 3});
  std::map<int, M4> ref;
  for (int k = 0; k < 4; k++) { int id = irand(0, 6); ref[id] = rpose(); o.setBoardPoseMat(id, mat(ref[id])); }
  int id = irand(0, 8); V3 r = rotEdge(iter), t = rvec3(); ref[id] = pose(r, t);
  if (iter & 1) o.setBoardPoseMat(id, mat(ref[id])); else o.setBoardPoseVec(id, col(r), col(t));
  REQUIRE(o.relative_board_pose_.size() == ref.size(), "%zu poses instead of %zu", o.relative_board_pose_.size(), ref.size());
  for (auto &e : ref)
    readback("board in object", e.second, [&] { return o.getBoardPoseMat(e.first); }, [&](cv::Mat &a, cv::Mat &b) { o.getBoardPoseVec(e.first, a, b); }, o.getBoardRotVec(e.first), o.getBoardTransVec(e.first));
}
CASE(group_camera_pose, 100) {
  CameraGroup o(0, 0);
  std::map<int, M4> ref;
  for (int k = 0; k < 4; k++) { int id = irand(0, 6); ref[id] = rpose(); o.setCameraPoseMat(mat(ref[id]), id); }
  int id = irand(0, 8); V3 r = rotEdge(iter), t = rvec3(); ref[id] = pose(r, t);
  if (iter & 1) o.setCameraPoseMat(mat(ref[id]), id); else o.setCameraPoseVec(col(r), col(t), id);
  REQUIRE(o.relative_camera_pose_.size() == ref.size(), "%zu poses instead of %zu", o.relative_camera_pose_.size(), ref.size());
  for (auto &e : ref)
    readback("camera in group", e.second, [&] { return o.getCameraPoseMat(e.first); }, [&](cv::Mat &a, cv::Mat &b) { o.getCameraPoseVec(e.first, a, b); }, o.getCameraRotVec(e.first), o.getCameraTransVec(e.first));
}
CASE(group_object_pose, 100) {
  auto g = std::make_shared<CameraGroup>(0, 0);
  CameraGroupObs o(g, true);
  std::map<int, M4> ref;
  for (int k = 0; k < 4; k++) { int id = irand(0, 6); ref[id] = rpose(); o.setObjectPoseMat(mat(ref[id]), id); }
  int id = irand(0, 8); V3 r = rotEdge(iter), t = rvec3(); ref[id] = pose(r, t);
  if (iter & 1) o.setObjectPoseMat(mat(ref[id]), id); else o.setObjectPoseVec(col(r), col(t), id);
  REQUIRE(o.object_pose_.size() == ref.size(), "%zu poses instead of %zu", o.object_pose_.size(), ref.size());
  for (auto &e : ref)
    readback("object in group observation", e.second, [&] { return o.getObjectPoseMat(e.first); }, [&](cv::Mat &a, cv::Mat &b) { o.getObjectPoseVec(e.first, a, b); }, o.getObjectRotVec(e.first), o.getObjectTransVec(e.first));
}

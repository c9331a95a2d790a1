#include "scene.hpp"
namespace McCalib {
cv::Mat getTranslationsForClustering(const std::vector<cv::Mat> &, const std::vector<cv::Mat> &);
cv::Mat clusterTranslations(const cv::Mat &, const unsigned int);
std::vector<unsigned int> selectClusters(const unsigned int, const unsigned int);
std::vector<unsigned int> selectPoses(const cv::Mat &, const std::vector<unsigned int> &);
void preparePosesForHandEyeCalibration(const std::vector<cv::Mat> &, const std::vector<cv::Mat> &, const std::vector<unsigned int> &, std::vector<cv::Mat> &, std::vector<cv::Mat> &, std::vector<cv::Mat> &, std::vector<cv::Mat> &);
double checkSetConsistency(const std::vector<cv::Mat> &, const std::vector<cv::Mat> &, const std::vector<unsigned int> &, const cv::Mat &);
}
// poses of two rigidly linked objects seen by two rigidly linked cameras
struct Rig {
  M4 X; std::vector<cv::Mat> a, b; // X maps the second camera to the first
  Rig(int n, double bad = 0) {
    M4 c1 = rpose(2, 1), c2 = rpose(2, 1), o1 = rpose(2, 1), o2 = rpose(2, 1);
    X = c1 * inv(c2);
    for (int i = 0; i < n; i++) {
      M4 m = pose(rrot(1.2), rvec3(1));
      a.push_back(mat(c1 * m * o1)); b.push_back(mat(coin(bad) ? rpose(2.5, 1) : c2 * m * o2));
    }
  }
};
static double angle(const M4 &P) {
  double t = (P(0, 0) + P(1, 1) + P(2, 2) - 1) / 2;
  return std::acos(std::max(-1.0, std::min(1.0, t))) * 180 / M_PI;
}
// hand-eye calibration on all frames: the two poses of each frame, the first one inverted
static M4 all(const std::vector<cv::Mat> &a, const std::vector<cv::Mat> &b, cv::HandEyeCalibrationMethod m = cv::CALIB_HAND_EYE_HORAUD) {
  std::vector<cv::Mat> r1, t1, r2, t2;
  for (size_t i = 0; i < a.size(); i++) { cv::Mat A = mat(inv(m4(a[i]))), B = b[i]; r1.push_back(A(cv::Rect(0, 0, 3, 3)).clone()); t1.push_back(A(cv::Rect(3, 0, 1, 3)).clone()); r2.push_back(B(cv::Rect(0, 0, 3, 3)).clone()); t2.push_back(B(cv::Rect(3, 0, 1, 3)).clone()); }
  cv::Mat R, t; cv::calibrateHandEye(r1, t1, r2, t2, R, t, m);
  M4 P = M4::eye(); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) P(i, j) = R.at<double>(i, j); P(i, 3) = t.at<double>(i); }
  return P;
}
CASE(consistency, 60) {
  Rig r(irand(2, 12), iter % 3 == 2 ? 0.3 : 0);
  M4 X = iter % 3 == 1 ? r.X * pose(rrot(1), V3(0, 0, 0)) : r.X;
  std::vector<unsigned> sel; for (unsigned i = 0; i < r.a.size(); i++) if (coin(0.7)) sel.push_back(i);
  std::shuffle(sel.begin(), sel.end(), gen());
  double want = 0;
  for (auto i : sel) for (auto j : sel) if (i != j) {
    M4 A = m4(r.a[j]) * inv(m4(r.a[i])), B = m4(r.b[j]) * inv(m4(r.b[i]));
    want = std::max(want, angle(inv(B) * inv(X) * A * X));
  }
  near(checkSetConsistency(r.a, r.b, sel, mat(X)), want, 1e-3, "largest disagreement of the motions, in degrees");
}
CASE(all_poses, 40) {
  Rig r(irand(4, 14));
  near(m4(handeyeCalibration(r.a, r.b)), all(r.a, r.b), 1e-6, "hand-eye calibration");
}
CASE(drawn_poses, 40) {
  Rig r(iter < 10 ? 4 + iter % 5 : irand(4, 30));
  if (!(dist(all(r.a, r.b, cv::CALIB_HAND_EYE_TSAI), r.X) < 1e-4)) return; // badly conditioned motions
  M4 got; // the draws are random: an ill-conditioned one may be off, all of them are not
  for (int k = 0; k < 8; k++) { got = m4(handeyeBootstraptTranslationCalibration(20, 30, r.a, r.b)); if (dist(got, r.X) < 1e-2) return; }
  near(got, r.X, 1e-2, "robust hand-eye calibration");
}
CASE(fallback, 20) {
  Rig r(irand(4, 14), iter % 2);
  M4 want = all(r.a, r.b);
  near(m4(handeyeBootstraptTranslationCalibration(20, iter % 2 ? 3 : irand(0, 3), r.a, r.b)), want, 1e-6, "hand-eye calibration on all poses");
}
CASE(draws, 60) {
  int n = irand(1, 25), k = irand(1, n);
  auto c = selectClusters(n, k);
  std::set<unsigned> d(c.begin(), c.end());
  REQUIRE((int)c.size() == k && d.size() == c.size() && *d.rbegin() < (unsigned)n, "%d of %d clusters: %zu drawn, %zu different", k, n, c.size(), d.size());
  int m = irand(n, 40);
  cv::Mat lab(m, 1, CV_32S); for (int i = 0; i < m; i++) lab.at<int>(i) = i < n ? i : irand(0, n - 1);
  auto p = selectPoses(lab, c);
  REQUIRE(p.size() == c.size(), "%zu poses for %zu clusters", p.size(), c.size());
  for (size_t i = 0; i < p.size(); i++) REQUIRE(p[i] < (unsigned)m && lab.at<int>(p[i]) == (int)c[i], "pose %u is not of cluster %u", p[i], c[i]);
}
CASE(inputs, 30) {
  Rig r(irand(1, 12), 0.5);
  cv::Mat t = getTranslationsForClustering(r.a, r.b);
  REQUIRE(t.rows == (int)r.a.size() && t.cols == 6 && t.type() == CV_32F, "translations are %dx%d", t.rows, t.cols);
  for (int i = 0; i < t.rows; i++) for (int j = 0; j < 3; j++) {
    near(t.at<float>(i, j), m4(r.a[i])(j, 3), 1e-5, "first translation"); near(t.at<float>(i, j + 3), m4(r.b[i])(j, 3), 1e-5, "second translation");
  }
  std::vector<unsigned> sel; for (unsigned i = 0; i < r.a.size(); i++) if (coin(0.7)) sel.push_back(i);
  std::shuffle(sel.begin(), sel.end(), gen());
  std::vector<cv::Mat> r1, t1, r2, t2;
  preparePosesForHandEyeCalibration(r.a, r.b, sel, r1, t1, r2, t2);
  REQUIRE(r1.size() == sel.size() && r2.size() == sel.size() && t1.size() == sel.size() && t2.size() == sel.size(), "wrong number of poses");
  for (size_t i = 0; i < sel.size(); i++) {
    M4 A = inv(m4(r.a[sel[i]])), B = m4(r.b[sel[i]]);
    near(v3(t1[i]), V3(A(0, 3), A(1, 3), A(2, 3)), 1e-9, "first translation"); near(v3(t2[i]), V3(B(0, 3), B(1, 3), B(2, 3)), 1e-9, "second translation");
    for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) { near(r1[i].at<double>(y, x), A(y, x), 1e-9, "first rotation"); near(r2[i].at<double>(y, x), B(y, x), 1e-9, "second rotation"); }
  }
}
// groups without common view; which objects each group sees in each frame
struct World : Scene {
  std::vector<std::vector<int>> cams, objs;
  World(int nc, int nb, int nf) : Scene(nc, nb, nf, 4, 4) {
    cams = partition(nc, irand(2, nc)); objs = partition(nb, irand(2, nb));
    for (size_t o = 0; o < objs.size(); o++) object(o, objs[o]);
    for (size_t g = 0; g < cams.size(); g++) { auto G = group(g, cams[g]); if (coin()) { int r = cams[g][irand(0, cams[g].size() - 1)]; G->id_ref_cam_ = r; for (int c : cams[g]) G->relative_camera_pose_[c] = vec6(cam[c] * inv(cam[r])); } }
  }
  void link() {
    C->initAll3DObjectObs();
    for (auto &e : C->object_observations_) { auto &o = *e.second; o.pose_ = vec6(cam[o.camera_id_] * mot(0, o.frame_id_) * board[objs[o.object_3d_id_][0]]); }
    C->initAllCameraGroupObs(); C->computeAllObjPoseInCameraGroup();
  }
  // observations of every object per (group, frame)
  std::map<std::pair<int, int>, std::map<int, int>> views() {
    std::map<std::pair<int, int>, std::map<int, int>> v;
    for (auto &e : C->object_observations_) for (size_t g = 0; g < cams.size(); g++)
      if (std::count(cams[g].begin(), cams[g].end(), e.second->camera_id_)) v[{(int)g, e.second->frame_id_}][e.second->object_3d_id_]++;
    return v;
  }
};
CASE(pairs, 40) {
  World w(irand(2, 5), irand(2, 5), irand(1, 9)); auto &C = *w.C;
  double p = uni(0.1, 0.8);
  for (int f = 0; f < w.nf; f++) for (int c = 0; c < w.nc; c++) for (int b = 0; b < w.nb; b++) if (coin(p)) w.see(c, f, b);
  w.link();
  C.no_overlap_object_pair_[{40, 41}] = {1, 2};
  C.findPairObjectForNonOverlap();
  auto v = w.views(); int n = w.cams.size();
  REQUIRE((int)C.no_overlap_object_pair_.size() == n * (n - 1), "%zu pairs of groups instead of %d", C.no_overlap_object_pair_.size(), n * (n - 1));
  for (auto &e : C.no_overlap_object_pair_) {
    std::map<std::pair<int, int>, int> cnt; int best = 0;
    for (int f = 0; f < w.nf; f++) for (auto &a : v[{e.first.first, f}]) for (auto &b : v[{e.first.second, f}]) best = std::max(best, cnt[{a.first, b.first}] += a.second * b.second);
    if (best) REQUIRE(cnt[e.second] == best, "groups %d and %d: objects (%d,%d) seen together %d times, others %d times", e.first.first, e.first.second, e.second.first, e.second.second, cnt[e.second], best);
  }
}
CASE(linked, 25) {
  World w(irand(2, 4), irand(2, 4), irand(3, 9)); auto &C = *w.C;
  C.he_approach_ = iter % 2;
  // every group looks at its own object most of the time
  for (int f = 0; f < w.nf; f++) for (size_t g = 0; g < w.cams.size(); g++) {
    size_t o = g % w.objs.size();
    if (coin(0.8)) for (int c : w.cams[g]) for (int b : w.objs[o]) if (b == w.objs[o][0] || coin()) w.see(c, f, b);
  }
  w.link();
  C.no_overlap_camgroup_pair_pose_[{40, 41}] = cv::Mat::eye(4, 4, CV_64F);
  C.findPairObjectForNonOverlap();
  C.findPoseNoOverlapAllCamGroup();
  auto v = w.views();
  for (int a = 0; a < (int)w.cams.size(); a++) for (int b = 0; b < (int)w.cams.size(); b++) if (a != b) {
    auto op = C.no_overlap_object_pair_[{a, b}]; int n = 0;
    for (int f = 0; f < w.nf; f++) if (v[{a, f}].count(op.first) && v[{b, f}].count(op.second)) n++;
    bool has = C.no_overlap_camgroup_pair_pose_.count({a, b});
    REQUIRE(has == (n > 3), "groups %d and %d with %d common frames are %slinked", a, b, n, has ? "" : "not ");
    if (!has || op.first == op.second) continue;
    REQUIRE(C.no_overlap__camgroup_pair_common_cnt_[std::make_pair(a, b)] == n, "groups %d and %d: %d common frames instead of %d", a, b, (int)C.no_overlap__camgroup_pair_common_cnt_[std::make_pair(a, b)], n);
    int ra = C.cam_group_[a]->id_ref_cam_, rb = C.cam_group_[b]->id_ref_cam_;
    std::vector<cv::Mat> A, B;
    for (int f = 0; f < w.nf; f++) if (v[{a, f}].count(op.first) && v[{b, f}].count(op.second)) {
      auto P = [&](int g, int o) { return mat(w.cam[C.cam_group_[g]->id_ref_cam_] * w.mot(0, f) * w.board[w.objs[o][0]]); };
      A.push_back(P(a, op.first)); B.push_back(P(b, op.second));
    }
    M4 got = m4(C.no_overlap_camgroup_pair_pose_[{a, b}]), lin = inv(all(A, B));
    if (C.he_approach_) near(got, lin, 1e-3, "pose between the groups");
    else {
      M4 want = w.cam[rb] * inv(w.cam[ra]);
      if (!(dist(all(A, B, cv::CALIB_HAND_EYE_TSAI), inv(want)) < 1e-4)) continue;
      for (int k = 0; k < 8 && dist(got, lin) > 1e-3 && dist(got, want) > 1e-2; k++) { C.initNonOverlapPair(a, b); got = m4(C.no_overlap_camgroup_pair_pose_[{a, b}]); }
      if (dist(got, lin) > 1e-3) near(got, want, 1e-2, "pose between the groups");
    }
  }
  for (auto &e : C.no_overlap_camgroup_pair_pose_) REQUIRE(e.first.first < (int)w.cams.size(), "a pose of other groups remains");
}
// the links found between groups are used once: after the merge they say nothing about the new groups
CASE(merged_twice, 30) {
  World w(irand(3, 6), irand(2, 4), 2); auto &C = *w.C;
  for (int f = 0; f < w.nf; f++) for (int c = 0; c < w.nc; c++) for (int b = 0; b < w.nb; b++) if (coin(0.7)) w.see(c, f, b);
  w.link();
  int n = w.cams.size();
  auto ref = [&](int g) { return C.cam_group_[g]->id_ref_cam_; };
  std::vector<int> comp; for (int g = 0; g < n; g++) comp.push_back(irand(0, 1));
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && comp[a] == comp[b]) { C.no_overlap_camgroup_pair_pose_[{a, b}] = mat(w.cam[ref(b)] * inv(w.cam[ref(a)])); C.no_overlap__camgroup_pair_common_cnt_[std::make_pair(a, b)] = 5; }
  auto check = [&](const char *what) {
    std::map<int, int> of; for (auto &g : C.cam_group_) for (auto &c : g.second->cameras_) of[c.first] = g.first;
    for (auto &g : C.cam_group_) for (auto &c : g.second->cameras_)
      near(m4(g.second->getCameraPoseMat(c.first)), w.cam[c.first] * inv(w.cam[g.second->id_ref_cam_]), 1e-6, fmt("%s: pose of camera %d in its group", what, c.first).c_str());
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) REQUIRE((of[w.cams[a][0]] == of[w.cams[b][0]]) == (comp[a] == comp[b]), "%s: groups %d and %d are %s", what, a, b, comp[a] == comp[b] ? "apart" : "together");
  };
  C.initInterCamGroupGraph(); C.mergeCameraGroup(); C.mergeAllCameraGroupObs(); check("first merge");
  C.initInterCamGroupGraph(); C.mergeCameraGroup(); C.mergeAllCameraGroupObs(); check("second merge");
}

#include "average.hpp"
CASE(median_value, 400) {
  int n = iter < 12 ? iter : irand(0, 40);
  std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(iter % 3 ? uni(-10, 10) : irand(-3, 3));
  double want = med(v);
  for (int k = 0; k < 4; k++) { std::shuffle(v.begin(), v.end(), gen()); auto w = v; near(median(w), want, 1e-12, "median"); }
}
static std::vector<V3> rotset(int n) {
  V3 c = rrot(2.2); std::vector<V3> r;
  for (int i = 0; i < n; i++) r.push_back(c + rvec3(0.3));
  return r;
}
CASE(average_rotation, 200) {
  auto rs = rotset(iter < 6 ? iter + 1 : irand(1, 15));
  std::vector<double> a, b, c; for (auto &r : rs) { a.push_back(r[0]); b.push_back(r[1]); c.push_back(r[2]); }
  checkRot(rs, iter & 1, v3(getAverageRotation(a, b, c, iter & 1)), "getAverageRotation");
}
CASE(inter_transform, 60) {
  TmpDir t; auto C = calib(Config(2, 2), t);
  C->quaternion_averaging_ = iter & 1;
  std::map<std::pair<int, int>, std::vector<cv::Mat>> in;
  std::map<std::pair<int, int>, std::vector<V3>> R, T;
  int np = irand(0, 5);
  for (int k = 0; k < np; k++) {
    auto key = std::make_pair(irand(0, 4), irand(0, 4));
    in[key].clear(); R[key] = rotset(irand(1, 8)); T[key].clear();
    for (auto &r : R[key]) { V3 x = rvec3(); T[key].push_back(x); in[key].push_back(mat(pose(r, x))); }
    // read the vectors back so that both sides see the same representative
    for (auto &r : R[key]) r = logrot(rot(r));
  }
  std::map<std::pair<int, int>, cv::Mat> out; out[{77, 78}] = cv::Mat::eye(4, 4, CV_64F);
  auto before = in.size();
  C->initInterTransform(in, out);
  REQUIRE(in.size() == before, "input changed");
  REQUIRE(out.size() == in.size(), "%zu averaged poses for %zu measured pairs", out.size(), in.size());
  for (auto &e : R) {
    REQUIRE(out.count(e.first), "no average for a measured pair");
    M4 P = m4(out[e.first]);
    std::vector<double> c[3]; for (auto &x : T[e.first]) for (int i = 0; i < 3; i++) c[i].push_back(x[i]);
    near(V3(P(0, 3), P(1, 3), P(2, 3)), V3(med(c[0]), med(c[1]), med(c[2])), 1e-9, "average translation");
    M3 G; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) G(i, j) = P(i, j);
    checkRot(e.second, C->quaternion_averaging_, logrot(G), "average rotation of a pair");
  }
}

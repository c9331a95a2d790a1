#include "common.hpp"
CASE(transform_points, 200) {
  int n = iter < 4 ? iter : irand(1, 40);
  V3 r = iter % 5 == 0 ? V3(0, 0, 0) : rrot(), t = rvec3();
  std::vector<cv::Point3f> p;
  for (int i = 0; i < n; i++) p.push_back(cv::Point3f((float)uni(-3, 3), (float)uni(-3, 3), iter % 3 ? (float)uni(-3, 3) : 0.f));
  auto keep = p; cv::Mat rm = col(r), tm = col(t);
  auto q = transform3DPts(p, rm, tm);
  REQUIRE(q.size() == p.size(), "%zu points out of %zu", q.size(), p.size());
  REQUIRE(p == keep, "the input list changed");
  near(v3(rm), r, 0, "rotation argument changed"); near(v3(tm), t, 0, "translation argument changed");
  M4 P = pose(r, t);
  for (int i = 0; i < n; i++) near(v3(q[i]), xf(P, v3(p[i])), 1e-4, "moved point");
}

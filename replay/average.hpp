#pragma once
#include "common.hpp"
inline double med(std::vector<double> v) {
  if (v.empty()) return 0; std::sort(v.begin(), v.end()); size_t n = v.size();
  return n % 2 ? v[n / 2] : 0.5 * (v[n / 2] + v[n / 2 - 1]);
}
// eigenvector of the largest eigenvalue of the mean of q q^T
inline M3 meanrot(const std::vector<V3> &rs) {
  cv::Mat A = cv::Mat::zeros(4, 4, CV_64F);
  for (auto &r : rs) {
    double t = std::sqrt(r.dot(r)), s = t < 1e-12 ? 0.5 : std::sin(t / 2) / t;
    cv::Mat q = (cv::Mat_<double>(4, 1) << r[0] * s, r[1] * s, r[2] * s, std::cos(t / 2));
    A += q * q.t();
  }
  cv::Mat e, V; cv::eigen(A, e, V);
  double x = V.at<double>(0, 0), y = V.at<double>(0, 1), z = V.at<double>(0, 2), w = V.at<double>(0, 3);
  return M3(1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
            2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y));
}
inline void checkRot(const std::vector<V3> &rs, bool quat, const V3 &got, const char *what) {
  if (quat) {
    M3 W = meanrot(rs), G = rot(got); double m = 0; for (int i = 0; i < 9; i++) m = std::max(m, std::abs(W.val[i] - G.val[i]));
    REQUIRE(m < 1e-6, "%s: quaternion mean differs by %g for %zu rotations", what, m, rs.size());
  } else {
    std::vector<double> c[3]; for (auto &r : rs) for (int i = 0; i < 3; i++) c[i].push_back(r[i]);
    near(got, V3(med(c[0]), med(c[1]), med(c[2])), 1e-9, what);
  }
}

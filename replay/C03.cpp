#include "common.hpp"
static M3 rotq(double x, double y, double z, double w) {
  return M3(1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
            2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y));
}
static double d3(const M3 &A, const M3 &B) { double m = 0; for (int i = 0; i < 9; i++) m = std::max(m, std::abs(A.val[i] - B.val[i])); return m; }
static void quat(int it, double q[4]) {
  for (int i = 0; i < 4; i++) q[i] = uni(-1, 1);
  if (it % 4 == 1) for (int i = 0; i < 4; i++) q[i] *= (i == (it / 4) % 4) ? 1 : 1e-3;   // one dominant component
  if (it % 4 == 2) q[3] = (it / 4) % 2 ? 0 : 1e-9;                                       // half turns
  if (it % 4 == 3) { for (int i = 0; i < 4; i++) q[i] = 0; q[(it / 4) % 4] = (it / 16) % 2 ? -1 : 1; q[(it / 4 + 1 + it / 32) % 4] += uni(-1, 1) * std::pow(10, -uni(2, 12)); }
  double n = 0; for (int i = 0; i < 4; i++) n += q[i] * q[i];
  n = std::sqrt(n); if (n < 1e-6) { q[0] = 1; n = 1; }
  for (int i = 0; i < 4; i++) q[i] /= n;
}
CASE(matrix_to_quaternion, 400) {
  double q[4]; quat(iter, q);
  M3 R = rotq(q[0], q[1], q[2], q[3]);
  cv::Mat Q = convertRotationMatrixToQuaternion(cv::Mat(R));
  REQUIRE(Q.total() == 4, "%d entries", (int)Q.total());
  const double *e = Q.ptr<double>();
  double n = e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3];
  near(n, 1, 1e-6, "norm of the quaternion");
  REQUIRE(d3(rotq(e[0], e[1], e[2], e[3]), R) < 1e-6, "rotation of the quaternion differs by %g (q = %g %g %g %g)", d3(rotq(e[0], e[1], e[2], e[3]), R), q[0], q[1], q[2], q[3]);
}
CASE(quaternion_to_matrix, 400) {
  double q[4]; quat(iter, q);
  cv::Mat M = convertQuaternionToRotationMatrix({q[0], q[1], q[2], q[3]});
  REQUIRE(M.rows == 3 && M.cols == 3, "%dx%d", M.rows, M.cols);
  M3 R; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = M.at<double>(i, j);
  REQUIRE(d3(R, rotq(q[0], q[1], q[2], q[3])) < 1e-6, "differs by %g (q = %g %g %g %g)", d3(R, rotq(q[0], q[1], q[2], q[3])), q[0], q[1], q[2], q[3]);
  REQUIRE(d3(R * R.t(), M3::eye()) < 1e-6, "not orthonormal");
}

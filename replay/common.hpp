// Replay harness: runs the real code of /repo on concrete inputs and compares
// the outcome with the contract of a property.  Used to find a failing input
// for a failed proof obligation and as the bounded stand-in of functions the
// verifier cannot reach.
#pragma once
#include <boost/log/core.hpp>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <random>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include <array>
#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <opencv2/opencv.hpp>
#include <opencv2/aruco/charuco.hpp>
#include <ceres/ceres.h>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/connected_components.hpp>
#include <boost/graph/dijkstra_shortest_paths.hpp>
#define private public
#include "McCalib.hpp"
#include "geometrytools.hpp"
#include "utilities.hpp"
#include "point_refinement.h"
#undef private

using namespace McCalib;
namespace fs = std::filesystem;

namespace H {
inline std::mt19937_64 &gen() { static std::mt19937_64 g(1); return g; }
inline double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(gen()); }
inline int irand(int a, int b) { return std::uniform_int_distribution<int>(a, b)(gen()); }
inline bool coin(double p = 0.5) { return uni(0, 1) < p; }

struct Failure { std::string msg; };
inline std::string fmt(const char *f, ...) {
  char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline FILE *&log() { static FILE *f = nullptr; return f; }
#define FAILF(...) throw H::Failure{H::fmt(__VA_ARGS__)}
#define REQUIRE(c, ...) do { if (!(c)) throw H::Failure{std::string(#c) + " -- " + H::fmt(__VA_ARGS__)}; } while (0)

// one case: a body run for many iterations; a failure names case, seed and iteration
struct Case { std::string name; int iters; std::function<void(int)> body; };
inline std::vector<Case> &cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const char *n, int it, std::function<void(int)> b) { cases().push_back({n, it, b}); } };
#define CASE(id, iters) \
  static void case_##id(int); static H::Reg reg_##id(#id, iters, case_##id); static void case_##id(int iter)

inline uint64_t mix(uint64_t s, const std::string &n, int i) {
  uint64_t h = 1469598103934665603ull ^ s;
  for (char c : n) h = (h ^ (unsigned char)c) * 1099511628211ull;
  h = (h ^ (uint64_t)i) * 1099511628211ull;
  return h;
}

// usage: prog LOG SEED SCALE [CASE [ITER]]
inline int run(int argc, char **argv) {
  if (argc > 1 && std::string(argv[1]) == "--list") { for (auto &c : cases()) puts(c.name.c_str()); return 0; }
  boost::log::core::get()->set_logging_enabled(false);
  cv::setNumThreads(2);
  log() = fopen(argv[1], "w");
  uint64_t seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  double scale = argc > 3 ? atof(argv[3]) : 1;
  std::string only = argc > 4 ? argv[4] : "";
  int oiter = argc > 5 ? atoi(argv[5]) : -1;
  int bad = 0;
  for (auto &c : cases()) {
    if (!only.empty() && c.name != only) continue;
    int n = std::max(1, (int)(c.iters * scale)), done = 0;
    auto t0 = std::chrono::steady_clock::now();
    for (int i = 0; i < n; i++) {
      if (oiter >= 0) i = oiter;
      fprintf(log(), "RUN %s %d\n", c.name.c_str(), i); fflush(log());
      gen().seed(mix(seed, c.name, i));
      srand(i + 1);
      std::string msg;
      try { c.body(i); done++; }
      catch (const Failure &f) { msg = f.msg; }
      catch (const std::exception &e) { msg = std::string("exception: ") + e.what(); }
      if (!msg.empty()) {
        for (char &ch : msg) if (ch == '\n') ch = ' ';
        fprintf(log(), "FAIL %s %d %s\n", c.name.c_str(), i, msg.c_str()); fflush(log());
        bad++; break;
      }
      if (oiter >= 0) break;
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > 60 * std::max(1.0, scale)) break;
    }
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    fprintf(log(), "DONE %s %d %.2f\n", c.name.c_str(), done, el); fflush(log());
  }
  fprintf(log(), "END %d\n", bad);
  fclose(log());
  return bad ? 1 : 0;
}

// ----------------------------------------------------------------- scratch
struct TmpDir {
  fs::path p;
  TmpDir() { const char *b = getenv("REPLAY_TMP"); char t[512]; snprintf(t, sizeof t, "%s/rXXXXXX", b ? b : "/tmp"); p = mkdtemp(t); }
  ~TmpDir() { std::error_code e; fs::remove_all(p, e); }
};

// -------------------------------------------------------------- mathematics
typedef cv::Matx33d M3; typedef cv::Vec3d V3; typedef cv::Matx44d M4;
// rotation matrix of a rotation vector, independent of the code under test
inline M3 rot(const V3 &r) {
  double t = std::sqrt(r.dot(r));
  if (t < 1e-12) return M3(1, -r[2], r[1], r[2], 1, -r[0], -r[1], r[0], 1);
  V3 k = r * (1 / t); M3 K(0, -k[2], k[1], k[2], 0, -k[0], -k[1], k[0], 0);
  return M3::eye() + K * std::sin(t) + K * K * (1 - std::cos(t));
}
inline V3 rrot(double maxang = 2.9) {
  V3 a(uni(-1, 1), uni(-1, 1), uni(-1, 1)); double n = std::sqrt(a.dot(a)); if (n < 1e-3) return V3(0.1, 0, 0);
  return a * (uni(0.01, maxang) / n);
}
inline V3 rvec3(double s = 5) { return V3(uni(-s, s), uni(-s, s), uni(-s, s)); }
inline M4 pose(const V3 &r, const V3 &t) {
  M3 R = rot(r); M4 P = M4::eye();
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) P(i, j) = R(i, j); P(i, 3) = t[i]; }
  return P;
}
inline M4 rpose(double ang = 2.9, double s = 5) { return pose(rrot(ang), rvec3(s)); }
inline M4 inv(const M4 &P) {
  M4 Q = M4::eye();
  for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) { Q(i, j) = P(j, i); s -= P(j, i) * P(j, 3); } Q(i, 3) = s; }
  return Q;
}
inline cv::Mat mat(const M4 &P) { return cv::Mat(P).clone(); }
inline cv::Mat col(const V3 &v) { return (cv::Mat_<double>(3, 1) << v[0], v[1], v[2]); }
inline M4 m4(const cv::Mat &M) {
  if (M.rows != 4 || M.cols != 4) FAILF("matrix is %dx%d, not 4x4", M.rows, M.cols);
  cv::Mat D; M.convertTo(D, CV_64F); M4 P;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) P(i, j) = D.at<double>(i, j);
  return P;
}
inline V3 v3(const cv::Mat &M) {
  if (M.total() != 3) FAILF("matrix has %d entries, not 3", (int)M.total());
  cv::Mat D; M.convertTo(D, CV_64F); if (!D.isContinuous()) D = D.clone();
  return V3(D.ptr<double>()[0], D.ptr<double>()[1], D.ptr<double>()[2]);
}
inline double dist(const M4 &A, const M4 &B) { double m = 0; for (int i = 0; i < 16; i++) m = std::max(m, std::abs(A.val[i] - B.val[i])); return m; }
inline double dist(const V3 &A, const V3 &B) { V3 d = A - B; return std::sqrt(d.dot(d)); }
inline void near(const M4 &A, const M4 &B, double tol, const char *what) {
  double d = dist(A, B);
  if (!(d <= tol)) FAILF("%s: matrices differ by %g (tolerance %g)", what, d, tol);
}
inline void near(const V3 &A, const V3 &B, double tol, const char *what) {
  double d = dist(A, B);
  if (!(d <= tol)) FAILF("%s: (%.9g %.9g %.9g) instead of (%.9g %.9g %.9g)", what, A[0], A[1], A[2], B[0], B[1], B[2]);
}
inline void near(double a, double b, double tol, const char *what) {
  if (!(std::abs(a - b) <= tol)) FAILF("%s: %.10g instead of %.10g", what, a, b);
}
inline V3 xf(const M4 &P, const V3 &x) { V3 r; for (int i = 0; i < 3; i++) r[i] = P(i, 0) * x[0] + P(i, 1) * x[1] + P(i, 2) * x[2] + P(i, 3); return r; }
inline V3 v3(const cv::Point3f &p) { return V3(p.x, p.y, p.z); }

// pinhole with radial-tangential (0) or equidistant fisheye (1) distortion
struct Lens { int model = 0; double fx = 500, fy = 510, u0 = 320, v0 = 240; double d[5] = {0, 0, 0, 0, 0}; };
inline cv::Point2d project(const Lens &L, const V3 &X) {
  double x = X[0] / X[2], y = X[1] / X[2];
  if (L.model == 0) {
    double r2 = x * x + y * y, g = 1 + r2 * (L.d[0] + r2 * (L.d[1] + r2 * L.d[4]));
    double xd = x * g + 2 * L.d[2] * x * y + L.d[3] * (r2 + 2 * x * x);
    double yd = y * g + L.d[2] * (r2 + 2 * y * y) + 2 * L.d[3] * x * y;
    return cv::Point2d(L.fx * xd + L.u0, L.fy * yd + L.v0);
  }
  double r = std::sqrt(x * x + y * y), th = std::atan(r), t2 = th * th;
  double td = th * (1 + t2 * (L.d[0] + t2 * (L.d[1] + t2 * (L.d[2] + t2 * L.d[3]))));
  double s = r > 1e-12 ? td / r : 1;
  return cv::Point2d(L.fx * x * s + L.u0, L.fy * y * s + L.v0);
}
inline Lens rlens(int model) {
  Lens L; L.model = model; L.fx = uni(400, 700); L.fy = uni(400, 700); L.u0 = uni(280, 360); L.v0 = uni(200, 280);
  if (model == 0) { L.d[0] = uni(-.2, .2); L.d[1] = uni(-.1, .1); L.d[2] = uni(-.01, .01); L.d[3] = uni(-.01, .01); L.d[4] = uni(-.05, .05); }
  else for (int i = 0; i < 4; i++) L.d[i] = uni(-.05, .05);
  return L;
}
inline void setLens(Camera &c, const Lens &L) {
  c.distortion_model_ = L.model;
  c.intrinsics_ = {L.fx, L.fy, L.u0, L.v0, L.d[0], L.d[1], L.d[2], L.d[3], L.model == 0 ? L.d[4] : 0.0};
  c.im_cols_ = 640; c.im_rows_ = 480;
}

// --------------------------------------------------------------- calibration
struct Config {
  std::map<std::string, std::string> kv;
  Config(int ncam, int nboard, int nx = 5, int ny = 5) {
    kv = {{"number_camera", std::to_string(ncam)}, {"number_board", std::to_string(nboard)},
          {"number_x_square", std::to_string(nx)}, {"number_y_square", std::to_string(ny)},
          {"refine_corner", "1"}, {"min_perc_pts", "0.5"}, {"distortion_model", "0"},
          {"distortion_per_camera", "[]"}, {"boards_index", "[]"}, {"length_square", "0.04"}, {"length_marker", "0.03"},
          {"resolution_x", "500"}, {"resolution_y", "500"}, {"square_size", "0.2"},
          {"number_x_square_per_board", "[]"}, {"number_y_square_per_board", "[]"},
          {"resolution_x_per_board", "[]"}, {"resolution_y_per_board", "[]"}, {"square_size_per_board", "[]"},
          {"root_path", "\"/nonexistent\""}, {"cam_prefix", "\"Cam_\""}, {"ransac_threshold", "10"}, {"number_iterations", "1000"},
          {"keypoints_path", "\"None\""}, {"cam_params_path", "\"None\""}, {"save_path", "\"\""}, {"camera_params_file_name", "\"\""},
          {"save_reprojection", "0"}, {"save_detection", "0"}, {"he_approach", "0"}, {"fix_intrinsic", "0"}, {"quaternion_averaging", "1"}};
  }
  Config &set(const std::string &k, const std::string &v) { kv[k] = v; return *this; }
  void write(const fs::path &p) const {
    std::ofstream o(p); o << "%YAML:1.0\n---\n";
    for (auto &e : kv) o << e.first << ": " << e.second << "\n";
  }
};
inline std::shared_ptr<Calibration> calib(const Config &c, TmpDir &t) {
  static int n = 0;
  fs::path p = t.p / ("c" + std::to_string(n++) + ".yml");
  c.write(p);
  return std::make_shared<Calibration>(p);
}
inline M4 stored(const std::array<double, 6> &p) { return pose(V3(p[0], p[1], p[2]), V3(p[3], p[4], p[5])); }
inline V3 logrot(const M3 &R) { cv::Mat r; cv::Rodrigues(cv::Mat(R), r); return V3(r.at<double>(0), r.at<double>(1), r.at<double>(2)); }
inline std::array<double, 6> vec6(const M4 &P) {
  M3 R; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = P(i, j);
  V3 r = logrot(R); return {r[0], r[1], r[2], P(0, 3), P(1, 3), P(2, 3)};
}
} // namespace H
using namespace H;
extern "C" const char *__asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:abort_on_error=0"; }
int main(int argc, char **argv) { return H::run(argc, argv); }

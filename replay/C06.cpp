#include "common.hpp"
#include "OptimizationCeres.h"
// residuals of every cost function against projected minus observed pixels
struct Setup {
  Lens L; V3 x; cv::Point2d obs; bool rc, rb; std::array<double, 6> cam, obj, brd; std::array<double, 9> in;
  M4 chain(bool useCam, bool useObj, bool useBoard) const {
    M4 P = M4::eye();
    if (useCam) P = P * stored(cam);
    if (useObj) P = P * stored(obj);
    if (useBoard) P = P * stored(brd);
    return P;
  }
};
static Setup make(int iter) {
  Setup s; s.L = rlens(iter % 2);
  if (iter % 2) s.L.d[4] = 0;
  s.x = V3(uni(-.5, .5), uni(-.5, .5), uni(-.2, .2));
  s.obs = cv::Point2d(uni(0, 640), uni(0, 480));
  s.rc = iter / 2 % 2; s.rb = iter / 4 % 2;
  s.obj = vec6(pose(rrot(), V3(uni(-.5, .5), uni(-.5, .5), uni(5, 7))));
  s.cam = vec6(pose(rrot(0.3), rvec3(0.3))); s.brd = vec6(pose(rrot(), rvec3(0.3)));
  if (iter % 16 == 15) { s.x = V3(0, 0, 0); s.rc = s.rb = false; s.obj = {0.1, 0.2, 0.3, 0, 0, 4}; s.cam = s.obj; }  // on the optical axis
  s.in = {s.L.fx, s.L.fy, s.L.u0, s.L.v0, s.L.d[0], s.L.d[1], s.L.d[2], s.L.d[3], s.L.d[4]};
  return s;
}
// residuals with and without derivatives
static void check(const char *what, ceres::CostFunction *f, std::vector<std::vector<double>> blocks, const Setup &s, const M4 &P, int skip = -1) {
  std::unique_ptr<ceres::CostFunction> own(f);
  REQUIRE(f->num_residuals() == 2, "%s: %d residuals", what, f->num_residuals());
  auto &sz = f->parameter_block_sizes();
  REQUIRE(sz.size() == blocks.size(), "%s: %zu parameter blocks", what, sz.size());
  std::vector<const double *> p; std::vector<double *> J; std::vector<std::vector<double>> jm;
  for (size_t i = 0; i < sz.size(); i++) {
    REQUIRE(sz[i] == (int)blocks[i].size(), "%s: block %zu has %d parameters", what, i, sz[i]);
    p.push_back(blocks[i].data()); jm.push_back(std::vector<double>(2 * sz[i], 0));
  }
  for (auto &j : jm) J.push_back(j.data());
  auto q = project(s.L, xf(P, s.x));
  double r[2] = {0, 0}, r2[2] = {0, 0};
  auto keep = blocks;
  f->Evaluate(p.data(), r, nullptr); f->Evaluate(p.data(), r2, J.data());
  REQUIRE(keep == blocks, "%s: a parameter block changed", what);
  near(r[0], q.x - s.obs.x, 1e-6, what); near(r[1], q.y - s.obs.y, 1e-6, what);
  near(r2[0], q.x - s.obs.x, 1e-6, what); near(r2[1], q.y - s.obs.y, 1e-6, what);
  if (skip >= 0) for (double d : jm[skip]) near(d, 0, 0, "derivative with respect to a pose that is not refined");
}
static std::vector<double> v(const std::array<double, 6> &a) { return std::vector<double>(a.begin(), a.end()); }
static std::vector<double> v(const std::array<double, 9> &a) { return std::vector<double>(a.begin(), a.end()); }
#define SCAL s.L.fx, s.L.fy, s.L.u0, s.L.v0, s.in[4], s.in[5], s.in[8], s.in[6], s.in[7]
CASE(intrinsics, 300) {
  Setup s = make(iter);
  check("ReprojectionError", ReprojectionError::Create(s.obs.x, s.obs.y, s.x[0], s.x[1], s.x[2], s.L.model), {v(s.obj), v(s.in)}, s, s.chain(false, true, false));
}
CASE(object, 300) {
  Setup s = make(iter);
  check("ReprojectionError_3DObjRef", ReprojectionError_3DObjRef::Create(s.obs.x, s.obs.y, s.x[0], s.x[1], s.x[2], SCAL, s.rb, s.L.model), {v(s.obj), v(s.brd)}, s, s.chain(false, true, s.rb), s.rb ? -1 : 1);
}
CASE(camera_group, 300) {
  Setup s = make(iter);
  check("ReprojectionError_CameraGroupRef", ReprojectionError_CameraGroupRef::Create(s.obs.x, s.obs.y, s.x[0], s.x[1], s.x[2], SCAL, s.rc, s.L.model), {v(s.cam), v(s.obj)}, s, s.chain(s.rc, true, false), s.rc ? -1 : 0);
}
CASE(camera_group_and_object, 300) {
  Setup s = make(iter);
  check("ReprojectionError_CameraGroupAndObjectRef", ReprojectionError_CameraGroupAndObjectRef::Create(s.obs.x, s.obs.y, s.x[0], s.x[1], s.x[2], SCAL, s.rc, s.rb, s.L.model), {v(s.cam), v(s.obj), v(s.brd)}, s, s.chain(s.rc, true, s.rb), s.rc ? s.rb ? -1 : 2 : 0);
}
CASE(camera_group_object_and_intrinsics, 300) {
  Setup s = make(iter);
  check("ReprojectionError_CameraGroupAndObjectRefAndIntrinsics", ReprojectionError_CameraGroupAndObjectRefAndIntrinsics::Create(s.obs.x, s.obs.y, s.x[0], s.x[1], s.x[2], s.rc, s.rb, s.L.model), {v(s.cam), v(s.obj), v(s.brd), v(s.in)}, s, s.chain(s.rc, true, s.rb), s.rc ? s.rb ? -1 : 2 : 0);
}

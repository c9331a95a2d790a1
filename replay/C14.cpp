#include "scene.hpp"
// correspondences of a random pose; some of them are wrong
struct Corr { Lens L; cv::Mat K, D; std::vector<cv::Point3f> p3; std::vector<cv::Point2f> p2; std::vector<bool> bad; M4 P; };
static void camera(Corr &c) { Camera cam(0, 0); setLens(cam, c.L); c.K = cam.getCameraMat(); c.D = cam.getDistortionVectorVector(); }
static Corr corr(int n, double out, int model) {
  Corr c; c.L = rlens(model); camera(c);
  c.P = pose(rrot(0.6), V3(uni(-.5, .5), uni(-.5, .5), uni(3, 6)));
  bool planar = coin();
  for (int i = 0; i < n; i++) {
    c.p3.push_back(cv::Point3f(uni(-1, 1), uni(-1, 1), planar ? 0 : uni(-1, 1)));
    auto q = project(c.L, xf(c.P, v3(c.p3.back())));
    bool b = coin(out); c.bad.push_back(b);
    double a = uni(0, 6.28), r = b ? uni(40, 300) : 0;
    c.p2.push_back(cv::Point2f(q.x + r * std::cos(a), q.y + r * std::sin(a)));
  }
  return c;
}
// pixel error of correspondence i under (r, t): on the image for the pinhole lens, in undistorted pixels for fisheye
static double err(const Corr &c, int i, const cv::Mat &r, const cv::Mat &t) {
  std::vector<cv::Point3f> a = {c.p3[i]}; std::vector<cv::Point2f> b, u = {c.p2[i]};
  cv::Mat D = c.D;
  if (c.L.model == 1) {
    cv::fisheye::undistortPoints(std::vector<cv::Point2f>{c.p2[i]}, u, c.K, c.D);
    u[0].x = u[0].x * float(c.K.at<double>(0, 0)) + float(c.K.at<double>(0, 2)); u[0].y = u[0].y * float(c.K.at<double>(1, 1)) + float(c.K.at<double>(1, 2));
    D = cv::Mat::zeros(1, 5, CV_64F);
  }
  cv::projectPoints(a, r, t, c.K, D, b);
  return std::hypot(b[0].x - u[0].x, b[0].y - u[0].y);
}
static void inliersOk(const Corr &c, const cv::Mat &in, const cv::Mat &r, const cv::Mat &t, double th) {
  int n = c.p3.size(); std::vector<int> got(n, 0);
  for (int i = 0; i < in.rows; i++) { int k = in.at<int>(i); REQUIRE(k >= 0 && k < n, "inlier %d of %d correspondences", k, n); REQUIRE(i == 0 || in.at<int>(i - 1) < k, "inliers are not listed once in order"); got[k] = 1; }
  if (in.rows == 0) return;
  for (int k = 0; k < n; k++) {
    double e = err(c, k, r, t);
    if (std::abs(e - th) < 1e-2 * (1 + th)) continue;
    REQUIRE(got[k] == (e < th), "correspondence %d has error %g px (threshold %g) but is reported as %s", k, e, th, got[k] ? "inlier" : "outlier");
  }
}
CASE(consistent, 150) {
  Corr c = corr(irand(4, 30), uni(0, .9), 0); cv::Mat r, t; double th = coin() ? uni(1, 10) : uni(50, 200);
  cv::Mat in = ransacP3PDistortion(c.p3, c.p2, c.K, c.D, r, t, th, irand(1, 40), 0, 0.99, false);
  inliersOk(c, in, r, t, th);
}
CASE(consistent_any_lens, 150) {
  Corr c = corr(irand(4, 30), uni(0, .9), irand(0, 1)); cv::Mat r, t; double th = coin() ? uni(1, 10) : uni(50, 200);
  cv::Mat in = ransacP3PDistortion(c.p3, c.p2, c.K, c.D, r, t, th, irand(1, 40), c.L.model, 0.99, false);
  inliersOk(c, in, r, t, th);
}
CASE(best_supported, 60) {
  Corr c = corr(irand(12, 40), coin() ? 0 : uni(0, .35), irand(0, 1)); cv::Mat r, t;
  bool refine = coin();
  cv::Mat in = ransacP3PDistortion(c.p3, c.p2, c.K, c.D, r, t, 5, 2000, c.L.model, 1 - 1e-12, refine);
  int good = 0; for (bool b : c.bad) good += !b;
  if (good < 8) return;
  REQUIRE(in.rows >= good, "%d inliers although %d of %zu correspondences agree exactly", in.rows, good, c.p3.size());
  for (size_t i = 0; i < c.p3.size(); i++) if (!c.bad[i]) { double e = err(c, i, r, t); REQUIRE(e < 5.5, "a consistent correspondence has error %g px under the returned pose", e); }
}
// every model with support is compared: few iterations, the returned model must be as good as any earlier one
CASE(few, 200) {
  int n = irand(0, 5), model = irand(0, 1);
  if (model == 1 && n == 0) n = 1;
  Corr c = corr(n, uni(0, .5), model); cv::Mat r, t;
  cv::Mat in = ransacP3PDistortion(c.p3, c.p2, c.K, c.D, r, t, coin() ? 3 : 1000, irand(0, 5), model, 0.99, coin());
  REQUIRE(in.rows <= n, "%d inliers of %d correspondences", in.rows, n);
  for (int i = 0; i < in.rows; i++) REQUIRE(in.at<int>(i) >= 0 && in.at<int>(i) < n, "inlier %d of %d", in.at<int>(i), n);
}
CASE(no_iteration, 20) {
  Corr c = corr(irand(4, 20), 0, irand(0, 1)); cv::Mat r = (cv::Mat_<double>(1, 3) << 1, 2, 3), t = (cv::Mat_<double>(1, 3) << 4, 5, 6);
  cv::Mat in = ransacP3PDistortion(c.p3, c.p2, c.K, c.D, r, t, 5, 0, c.L.model);
  REQUIRE(in.rows == 0 && r.at<double>(0) == 1 && t.at<double>(2) == 6, "a budget of no iteration still sampled a model");
}
CASE(hopeless, 10) { // nothing agrees: the search must still stop
  int n = irand(20, 60); Corr c = corr(n, 1, irand(0, 1)); cv::Mat r, t; double th = coin() ? 1e-4 : uni(1, 5);
  cv::Mat in = ransacP3PDistortion(c.p3, c.p2, c.K, c.D, r, t, th, irand(1, 300), c.L.model, coin() ? .99 : 1.0, false);
  inliersOk(c, in, r, t, th);
}
CASE(triangulation, 60) {
  int n = irand(0, 6); Lens L = rlens(0); Camera cam(0, 0); setLens(cam, L);
  V3 X(uni(-.3, .3), uni(-.3, .3), uni(-.3, .3)); std::vector<cv::Point2f> p; std::vector<cv::Mat> R, T;
  for (int i = 0; i < n; i++) {
    M4 P = pose(rrot(0.6), V3(uni(-.5, .5), uni(-.5, .5), uni(4, 6)));
    p.push_back(project(L, xf(P, X)));
    R.push_back(col(logrot(M3(P(0, 0), P(0, 1), P(0, 2), P(1, 0), P(1, 1), P(1, 2), P(2, 0), P(2, 1), P(2, 2))))); T.push_back(col(V3(P(0, 3), P(1, 3), P(2, 3))));
  }
  cv::Point3f b(77, 77, 77); int it = irand(0, 30);
  ransacTriangulation(p, R, T, cam.getCameraMat(), cam.getDistortionVectorVector(), 3, 0.99, it, b);
  if (n < 2 || it == 0) REQUIRE(b.x == 77, "a point was produced without samples");
}
CASE(board_pose, 80) {
  Scene s(irand(1, 2), irand(1, 3), irand(1, 2), 5, 5); auto &C = *s.C;
  for (int f = 0; f < s.nf; f++) for (int c = 0; c < s.nc; c++) for (int b = 0; b < s.nb; b++) if (coin(.7)) s.see(c, f, b, coin(.7) ? -1 : irand(1, 8), 0);
  for (auto &x : s.seen) {
    auto b = x.obs; int bad = coin() ? 0 : irand(0, (int)x.ids.size());
    for (int i = 0; i < bad; i++) b->pts_2d_[irand(0, x.ids.size() - 1)] += cv::Point2f(uni(60, 200), uni(60, 200));
    auto ids = b->charuco_id_; auto pts = b->pts_2d_;
    double th = coin() ? 5 : 1e5; b->estimatePose(th, irand(1, 200));
    REQUIRE(b->charuco_id_.size() == b->pts_2d_.size(), "%zu identifiers of %zu points", b->charuco_id_.size(), b->pts_2d_.size());
    size_t last = 0;
    for (size_t i = 0; i < b->charuco_id_.size(); i++) {
      size_t k = std::find(ids.begin() + last, ids.end(), b->charuco_id_[i]) - ids.begin(); last = k + 1;
      REQUIRE(k < ids.size() && b->pts_2d_[i] == pts[k], "point %zu no longer belongs to identifier %d", i, b->charuco_id_[i]);
    }
    REQUIRE(b->valid_ == (b->charuco_id_.size() >= 4), "%zu inliers but valid_ is %d", b->charuco_id_.size(), (int)b->valid_);
    if (b->valid_ && bad == 0 && x.ids.size() >= 12) { if (th < 10) REQUIRE(b->computeReprojectionError() < 5.5, "the estimated pose has a mean error of %g px", b->computeReprojectionError()); }
  }
}
CASE(object_pose, 60) {
  Scene s(irand(1, 2), irand(1, 3), irand(1, 2), 5, 5); auto &C = *s.C;
  for (int f = 0; f < s.nf; f++) for (int c = 0; c < s.nc; c++) for (int b = 0; b < s.nb; b++) if (coin(.7)) s.see(c, f, b, -1, 0);
  auto parts = partition(s.nb, irand(1, s.nb));
  for (size_t i = 0; i < parts.size(); i++) s.object(i, parts[i]);
  C.initAll3DObjectObs();
  for (auto &e : C.object_observations_) {
    auto &o = *e.second; auto ids = o.pts_id_; auto pts = o.pts_2d_;
    o.estimatePose(5, 200);
    REQUIRE(o.pts_id_ == ids && o.pts_2d_ == pts, "an object pose changed the observed points");
    REQUIRE(o.computeReprojectionError() < 5.5, "the estimated pose has a mean error of %g px", o.computeReprojectionError());
  }
}

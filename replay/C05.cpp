#include "common.hpp"
static void same(const cv::Mat &K, const cv::Mat &D, const Lens &L, const char *w) {
  near(K.at<double>(0, 0), L.fx, 1e-9, w); near(K.at<double>(1, 1), L.fy, 1e-9, w); near(K.at<double>(0, 2), L.u0, 1e-9, w); near(K.at<double>(1, 2), L.v0, 1e-9, w);
  near(K.at<double>(0, 1), 0, 0, w); near(K.at<double>(1, 0), 0, 0, w); near(K.at<double>(2, 0), 0, 0, w); near(K.at<double>(2, 1), 0, 0, w); near(K.at<double>(2, 2), 1, 0, w);
  int n = L.model ? 4 : 5;
  REQUIRE((int)D.total() == n, "%s: %d distortion coefficients", w, (int)D.total());
  for (int i = 0; i < n; i++) near(D.ptr<double>()[i], L.d[i], 1e-9, w);
}
static cv::Mat Kof(const Lens &L) { return (cv::Mat_<double>(3, 3) << L.fx, 0, L.u0, 0, L.fy, L.v0, 0, 0, 1); }
static cv::Mat Dof(const Lens &L) { int n = L.model ? 4 : 5; cv::Mat D(1, n, CV_64F); for (int i = 0; i < n; i++) D.at<double>(i) = L.d[i]; return D; }
CASE(round_trip, 200) {
  Lens A = rlens(iter & 1), B = rlens(iter & 1);
  Camera c(irand(0, 5), iter & 1);
  c.intrinsics_.fill(uni(-1, 1));
  c.setIntrinsics(Kof(A), Dof(A));
  cv::Mat K, D; c.getIntrinsics(K, D); same(K, D, A, "setIntrinsics/getIntrinsics"); same(c.getCameraMat(), c.getDistortionVectorVector(), A, "setIntrinsics");
  cv::Mat col = Dof(B).t();
  c.setDistortionVector(iter & 2 ? Dof(B) : col);
  Lens AB = A; for (int i = 0; i < 5; i++) AB.d[i] = B.d[i];
  same(c.getCameraMat(), c.getDistortionVectorVector(), AB, "setDistortionVector changes only the distortion");
  c.setCameraMat(Kof(B)); same(c.getCameraMat(), c.getDistortionVectorVector(), B, "setCameraMat");
  c.setDistortionVector(Dof(A)); c.setCameraMat(Kof(A)); c.getIntrinsics(K, D); same(K, D, A, "setCameraMat after setDistortionVector");
  // the vector feeds the optimiser in this order
  Lens L = A; for (int i = 0; i < (L.model ? 4 : 5); i++) near(c.intrinsics_[4 + i], L.d[i], 1e-9, "order in the parameter vector");
  near(c.intrinsics_[0], L.fx, 1e-9, "fx"); near(c.intrinsics_[1], L.fy, 1e-9, "fy"); near(c.intrinsics_[2], L.u0, 1e-9, "u0"); near(c.intrinsics_[3], L.v0, 1e-9, "v0");
}
// initial calibration on noise-free views: what the solver returns is close to the truth
CASE(initial_calibration, 6) {
  TmpDir t; auto C = calib(Config(1, 1, 8, 7).set("distortion_model", std::to_string(iter & 1)), t);
  Lens L; L.model = iter & 1; L.fx = 500; L.fy = 520; L.u0 = 322; L.v0 = 238;
  if (L.model == 0) { L.d[0] = -0.1; L.d[1] = 0.02; L.d[2] = 0.001; L.d[3] = -0.001; } else { L.d[0] = 0.02; L.d[1] = -0.01; }
  C->cams_[0]->im_cols_ = 640; C->cams_[0]->im_rows_ = 480;
  auto &B = *C->boards_3d_[0];
  int n = 0;
  for (int f = 0; n < 25 && f < 3000; f++) {
    M4 P = pose(V3(uni(-.5, .5), uni(-.5, .5), uni(-.5, .5)), V3(uni(-1.2, .4), uni(-1.0, .3), uni(1.6, 3)));
    std::vector<cv::Point2f> p; std::vector<int> id; bool ok = true;
    for (int i = 0; i < (int)B.pts_3d_.size(); i++) {
      cv::Point2d q = project(L, xf(P, v3(B.pts_3d_[i])));
      if (q.x < 60 || q.x > 580 || q.y < 40 || q.y > 440) ok = false;
      p.push_back(cv::Point2f((float)q.x, (float)q.y)); id.push_back(i);
    }
    if (!ok) continue;
    C->insertNewBoard(0, n, 0, p, id, "f"); n++;
  }
  if (n < 15) return;
  C->cams_[0]->initializeCalibration();
  auto v = C->cams_[0]->intrinsics_;
  near(v[0], L.fx, 3, "fx"); near(v[1], L.fy, 3, "fy"); near(v[2], L.u0, 3, "u0"); near(v[3], L.v0, 3, "v0");
  if (L.model == 0) near(v[4], L.d[0], 0.03, "k1");
}

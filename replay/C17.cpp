#include "scene.hpp"
#include <opencv2/aruco/charuco.hpp>
CASE(border, 300) {
  auto cam = std::make_shared<Camera>(0, 1); cam->im_cols_ = irand(1, 60) * 20; cam->im_rows_ = irand(1, 60) * 20;
  double w = cam->im_cols_, h = cam->im_rows_; int n = irand(0, 6);
  auto o = std::make_shared<BoardObs>(0, 0, 0, std::vector<cv::Point2f>(), std::vector<int>(), cam, std::make_shared<Board>("/nonexistent", 0, cv::Ptr<cv::aruco::CharucoBoard>()));
  bool want = true;
  for (int i = 0; i < n; i++) {
    double x = uni(.06, .94) * w, y = uni(.06, .94) * h;
    if (coin(.15)) { double d = coin() ? uni(.001, .02) : -uni(.001, .02); double e = coin() ? .05 + d : .95 - d; (coin() ? x : y) = e * (0); bool ox = coin(); x = ox ? e * w : uni(.06, .94) * w; y = ox ? uni(.06, .94) * h : e * h; if (d < 0) want = false; }
    o->pts_2d_.push_back(cv::Point2f(x, y)); o->charuco_id_.push_back(i);
  }
  REQUIRE(cam->checkBorderToleranceFisheye(o) == want, "%d points, image %gx%g: %s", n, w, h, want ? "all lie inside" : "one lies in the margin");
}
// mean distance of points to the line through their centre along their principal direction
static double spread(const std::vector<cv::Point2f> &p) {
  double mx = 0, my = 0, a = 0, b = 0, c = 0, r = 0; for (auto &q : p) { mx += q.x; my += q.y; } mx /= p.size(); my /= p.size();
  for (auto &q : p) { a += (q.x - mx) * (q.x - mx); b += (q.x - mx) * (q.y - my); c += (q.y - my) * (q.y - my); }
  double t = .5 * std::atan2(2 * b, a - c); for (auto &q : p) r += std::abs((q.x - mx) * -std::sin(t) + (q.y - my) * std::cos(t));
  return r / p.size();
}
CASE(line, 200) {
  std::vector<cv::Point2f> p; double t = uni(0, 6.3), k = coin() ? 0 : uni(0, 1), ox = uni(-5, 5), oy = uni(-5, 5);
  for (int i = irand(3, 20); i > 0; i--) { double u = uni(-10, 10), v = k * uni(-2, 2); p.push_back(cv::Point2f(ox + u * cos(t) - v * sin(t), oy + u * sin(t) + v * cos(t))); }
  double a, b, c, r; calcLinePara(p, a, b, c, r);
  near(r, spread(p), 1e-3, "mean distance to the line"); near(a * a + b * b, 1, 1e-4, "normal of the line");
}
CASE(kernel, 12) {
  int h = 1 + iter % 6, n = 0; cv::Mat k, m, F; initConeSmoothingKernel(h, k, m, n);
  REQUIRE(k.rows == 2 * h + 1 && k.cols == 2 * h + 1 && k.type() == CV_32F, "kernel size"); int pos = 0; double s = 0;
  auto cone = [&](int y, int x) { return std::max(0.0, h + 1 - std::sqrt((double)x * x + y * y)); };
  for (int y = -h; y <= h; y++) for (int x = -h; x <= h; x++) { s += cone(y, x); pos += cone(y, x) > 0; }
  REQUIRE(n == pos, "%d positive weights counted as %d", pos, n);
  for (int y = -h; y <= h; y++) for (int x = -h; x <= h; x++) near(k.at<float>(y + h, x + h), cone(y, x) / s, 1e-5, "weight");
  initSaddleFitting(h, n, k, m, F); REQUIRE(F.rows == 6 && F.cols == n, "%dx%d fit", F.rows, F.cols);
  // the fit of a quadratic gives back its coefficients
  double c[6]; for (double &v : c) v = uni(-2, 2); cv::Mat b(n, 1, CV_64F); int r = 0;
  for (int y = -h; y <= h; y++) for (int x = -h; x <= h; x++) { REQUIRE((m.at<uint8_t>(y + h, x + h) > 0) == (cone(y, x) > 0), "mask at %d,%d", y, x); if (cone(y, x) > 0) b.at<double>(r++) = c[0] * x * x + c[1] * y * y + c[2] * x * y + c[3] * y + c[4] * x + c[5]; }
  cv::Mat p = F * b; for (int i = 0; i < 6; i++) near(p.at<double>(i), c[i], 1e-7, "coefficient");
}
CASE(refine, 60) {
  int W = irand(30, 50), Ht = irand(30, 50), h = irand(2, 5); double cx = uni(h + 4, W - h - 5), cy = uni(h + 4, Ht - h - 5), t = uni(0, 3.1), a = uni(.5, 3), b = uni(.5, 3);
  cv::Mat im(Ht, W, CV_64F); for (int y = 0; y < Ht; y++) for (int x = 0; x < W; x++) { double u = (x - cx) * cos(t) + (y - cy) * sin(t), v = -(x - cx) * sin(t) + (y - cy) * cos(t); im.at<double>(y, x) = 5000 + a * u * u - b * v * v; }
  std::vector<cv::Point2f> p; std::vector<int> kind;
  for (int i = irand(1, 6); i > 0; i--) {
    if (coin()) { p.push_back(cv::Point2f(cx + uni(-.5, .5), cy + uni(-.5, .5))); kind.push_back(1); }
    else { bool x = coin(); double e = coin() ? uni(-3, h + .9) : uni(-h - 1.9, 3); p.push_back(x ? cv::Point2f(e < 0 || e > h + 1 ? W + std::min(e, 2.0) : e, uni(0, Ht)) : cv::Point2f(uni(0, W), e < 0 ? Ht + e : e)); kind.push_back(0); }
    if (!kind.back()) { auto &q = p.back(); if (!(q.x <= h + 1 || q.y <= h + 1 || q.x >= W - h - 2 || q.y >= Ht - h - 2)) { p.pop_back(); kind.pop_back(); } }
  }
  std::vector<SaddlePoint> r; saddleSubpixelRefinement(im, p, r, h, 20);
  REQUIRE(r.size() == p.size(), "%zu refined of %zu", r.size(), p.size());
  for (size_t i = 0; i < p.size(); i++) {
    if (!kind[i]) { REQUIRE(std::isinf(r[i].x) && std::isinf(r[i].y), "a point at %g,%g next to the border of a %dx%d image is refined", p[i].x, p[i].y, W, Ht); continue; }
    REQUIRE(std::abs(r[i].x - cx) < .01 && std::abs(r[i].y - cy) < .01, "saddle at %g,%g found at %g,%g from %g,%g", cx, cy, r[i].x, r[i].y, p[i].x, p[i].y);
  }
}
CASE(filter, 40) {
  TmpDir t; int nb = irand(1, 3), nx = irand(3, 6), ny = irand(3, 6); Config c(1, nb, nx, ny); double frac = coin(.3) ? uni(0, .2) : uni(0, 1); bool refine = coin(.3);
  c.set("min_perc_pts", std::to_string(frac)).set("refine_corner", refine ? "1" : "0");
  if (coin()) { std::string l; for (int b = 0; b < nb; b++) l += (b ? ", " : "") + std::string(std::array<const char *, 3>{"0.02", "0.2", "3.0"}[irand(0, 2)]); c.set("square_size_per_board", "[ " + l + " ]"); }
  auto C = calib(c, t);
  cv::Mat im(500, 500 * nb, CV_8UC1, cv::Scalar(255));
  for (int b = 0; b < nb; b++) { cv::Mat d; C->boards_3d_[b]->charuco_board_->draw(cv::Size(480, 480), d, 10, 1); d.copyTo(im(cv::Rect(500 * b + 10, 10, 480, 480)));
    int cut = irand(0, 4); if (cut) { int s = irand(50, 440); cv::Rect r = cut == 1 ? cv::Rect(0, 0, s, 480) : cut == 2 ? cv::Rect(0, 0, 480, s) : cut == 3 ? cv::Rect(0, 480 - s, 480, s) : cv::Rect(480 - s, 0, s, 480); r.x += 500 * b + 10; r.y += 10; im(r) = 255; } }
  auto f = (t.p / "i.png").string(); cv::imwrite(f, im); im = cv::imread(f);
  int cam = 0, frame = irand(0, 9); C->detectBoardsInImageWithCamera(f, cam, frame);
  std::map<int, int> got; for (auto &e : C->board_observations_) { REQUIRE(!got.count(e.second->board_id_), "board %d recorded twice", e.second->board_id_); got[e.second->board_id_] = e.first; }
  for (int b = 0; b < nb; b++) {
    auto &B = *C->boards_3d_[b]; std::vector<int> mi, ci; std::vector<std::vector<cv::Point2f>> mc; std::vector<cv::Point2f> cc; auto pr = cv::aruco::DetectorParameters::create(); pr->adaptiveThreshConstant = 1;
    cv::aruco::detectMarkers(im, B.charuco_board_->dictionary, mc, mi, pr); if (mc.size()) cv::aruco::interpolateCornersCharuco(mc, mi, im, B.charuco_board_, cc, ci);
    std::vector<cv::Point2f> q; for (int i : ci) q.push_back(cv::Point2f(B.pts_3d_[i].x, B.pts_3d_[i].y));
    bool want = cc.size() > (size_t)std::round((float)frac * B.nb_pts_) && cc.size() > 4 && spread(q) > .1 * B.square_size_;
    REQUIRE((got.count(b) > 0) == want, "board %d with %zu of %u corners, minimum fraction %g, spread %g of the square: %s", b, cc.size(), B.nb_pts_, frac, q.empty() ? 0 : spread(q) / B.square_size_, want ? "dropped" : "kept");
    if (!want) continue;
    auto &o = *C->board_observations_[got[b]]; REQUIRE(o.camera_id_ == cam && o.frame_id_ == frame && o.charuco_id_ == ci && o.pts_2d_.size() == cc.size(), "content of the observation of board %d", b);
    for (size_t i = 0; i < cc.size(); i++) REQUIRE(refine ? cv::norm(o.pts_2d_[i] - cc[i]) < 2 : o.pts_2d_[i] == cc[i], "corner %d of board %d", ci[i], b);
  }
}

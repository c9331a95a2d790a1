#include "scene.hpp"
#define main create_charuco_main
#include "create_charuco_boards.cpp"
#undef main
static std::string S(int x) { return std::to_string(x); }
static std::string S(double x) { char b[40]; snprintf(b, sizeof b, "%.6g", x); return strpbrk(b, ".e") ? b : std::string(b) + ".0"; }
template <class T> static std::string L(const std::vector<T> &v) { std::string r; for (auto &x : v) r += (r.empty() ? "" : ", ") + S(x); return "[" + r + "]"; }
static std::string Q(const std::string &s) { return "\"" + s + "\""; }
static std::string word() { static const char *w[] = {"alpha", "beta_", "Cam_", "x-1", "some/dir"}; return w[irand(0, 4)] + S(irand(0, 99)); }
CASE(options, 40) {
  TmpDir t; int nc = irand(1, 5);
  Config c(nc, 1); bool refine = coin(), qa = coin(); double perc = irand(1, 99) / 100., thr = irand(1, 400) / 8.; int it = irand(1, 5000), he = irand(0, 1), fix = irand(0, 1), sr = irand(0, 1), sd = irand(0, 1), dm = irand(0, 1);
  std::vector<int> per; if (coin()) for (int i = 0; i < nc; i++) per.push_back(irand(0, 1));
  std::string root = "/" + word(), pre = word(), par = word(), cp = word() + ".yml", kp = word() + ".yml", save = (t.p / "out").string();
  int rx = irand(100, 900), ry = irand(100, 900); double ls = irand(1, 64) / 64., lm = irand(1, 64) / 128.;
  if (lm >= ls) lm = ls / 2;
  c.set("refine_corner", S((int)refine)).set("quaternion_averaging", S((int)qa)).set("min_perc_pts", S(perc)).set("ransac_threshold", S(thr)).set("number_iterations", S(it)).set("he_approach", S(he))
   .set("fix_intrinsic", S(fix)).set("save_reprojection", S(sr)).set("save_detection", S(sd)).set("distortion_model", S(dm)).set("distortion_per_camera", L(per)).set("root_path", Q(root)).set("cam_prefix", Q(pre))
   .set("camera_params_file_name", Q(par)).set("cam_params_path", Q(cp)).set("keypoints_path", Q(kp)).set("save_path", Q(save)).set("resolution_x", S(rx)).set("resolution_y", S(ry)).set("length_square", S(ls)).set("length_marker", S(lm));
  auto C = calib(c, t);
  REQUIRE((int)C->nb_camera_ == nc && (int)C->cams_.size() == nc, "number_camera %d: %u, %zu cameras", nc, C->nb_camera_, C->cams_.size());
  for (int i = 0; i < nc; i++) { REQUIRE(C->cams_.count(i) && C->cams_[i]->cam_idx_ == i, "camera %d", i); REQUIRE(C->cams_[i]->distortion_model_ == (per.empty() ? dm : per[i]), "lens model of camera %d: %d", i, C->cams_[i]->distortion_model_); }
  REQUIRE(C->refine_corner_ == refine, "refine_corner"); REQUIRE(C->quaternion_averaging_ == qa, "quaternion_averaging %d: %d", qa, C->quaternion_averaging_);
  near(C->min_perc_pts_, perc, 1e-6, "min_perc_pts"); near(C->ransac_thresh_, thr, 1e-4, "ransac_threshold");
  REQUIRE(C->nb_iterations_ == it, "number_iterations %d: %d", it, C->nb_iterations_); REQUIRE(C->he_approach_ == he, "he_approach"); REQUIRE(C->fix_intrinsic_ == fix, "fix_intrinsic");
  REQUIRE(C->save_repro_ == sr, "save_reprojection"); REQUIRE(C->save_detect_ == sd, "save_detection");
  REQUIRE(C->root_path_ == root, "root_path %s", C->root_path_.c_str()); REQUIRE(C->cam_prefix_ == pre, "cam_prefix"); REQUIRE(C->camera_params_file_name_ == par, "camera_params_file_name");
  REQUIRE(C->cam_params_path_ == cp, "cam_params_path"); REQUIRE(C->keypoints_path_ == kp, "keypoints_path"); REQUIRE(C->save_path_ == save, "save_path"); REQUIRE(fs::is_directory(save), "save_path is not created");
}
struct Boards {
  int n, total; std::vector<int> idx, px, py; std::vector<double> ps; int nx, ny; double sz;
  bool unset() const { return idx.empty(); }
  int orig(int b) const { return unset() ? b : idx[b]; }
  int X(int b) const { return px.empty() ? nx : px[orig(b)]; }
  int Y(int b) const { return py.empty() ? ny : py[orig(b)]; }
  double Z(int b) const { return ps.empty() ? sz : ps[orig(b)]; }
};
static Boards boards(bool select) {
  Boards B; B.n = B.total = irand(1, 5); B.nx = irand(3, 7); B.ny = irand(3, 7); B.sz = irand(1, 200) / 8.;
  if (select && coin(.4)) { B.total = irand(1, 8); for (int i = 0; i < B.total; i++) if (coin(.5) || (B.idx.empty() && i + 1 == B.total)) B.idx.push_back(i); std::shuffle(B.idx.begin(), B.idx.end(), gen()); B.n = B.idx.size(); }
  if (coin()) for (int i = 0; i < B.total; i++) { B.px.push_back(irand(3, 7)); B.py.push_back(irand(3, 7)); }
  if (coin()) for (int i = 0; i < B.total; i++) B.ps.push_back(irand(1, 200) / 8.);
  return B;
}
static Config config(const Boards &B, int count) {
  return Config(1, count, B.nx, B.ny).set("square_size", S(B.sz)).set("boards_index", L(B.idx)).set("number_x_square_per_board", L(B.px)).set("number_y_square_per_board", L(B.py)).set("square_size_per_board", L(B.ps));
}
CASE(boards, 150) {
  TmpDir t; Boards B = boards(true);
  auto C = calib(config(B, B.unset() ? B.n : irand(1, B.total)), t);
  REQUIRE((int)C->nb_board_ == B.n && (int)C->boards_3d_.size() == B.n, "%u boards, %zu in the table, not %d", C->nb_board_, C->boards_3d_.size(), B.n);
  std::vector<int> first; int k = 0;                       // first marker of every pattern
  for (int o = 0; o < B.total; o++) { first.push_back(k); k += (B.px.empty() ? B.nx : B.px[o]) * (B.py.empty() ? B.ny : B.py[o]) / 2; }
  for (int b = 0; b < B.n; b++) {
    REQUIRE(C->boards_3d_.count(b), "board %d is missing", b);
    auto &q = *C->boards_3d_[b]; int nx = B.X(b), ny = B.Y(b); double z = B.Z(b);
    REQUIRE(q.board_id_ == b, "identifier %d of board %d", q.board_id_, b);
    REQUIRE(q.nb_x_square_ == nx && q.nb_y_square_ == ny, "board %d has %dx%d squares, not %dx%d", b, q.nb_x_square_, q.nb_y_square_, nx, ny);
    REQUIRE((int)q.nb_pts_ == (nx - 1) * (ny - 1) && q.pts_3d_.size() == q.nb_pts_, "board %d: %u points, %zu stored", b, q.nb_pts_, q.pts_3d_.size());
    for (int y = 0; y < ny - 1; y++) for (int x = 0; x < nx - 1; x++) near(v3(q.pts_3d_[y * (nx - 1) + x]), V3(x * z, y * z, 0), 1e-3, "board point");
    auto ids = q.charuco_board_->ids;
    REQUIRE((int)ids.size() == nx * ny / 2, "board %d has %zu markers, not %d", b, ids.size(), nx * ny / 2);
    for (size_t i = 0; i < ids.size(); i++) REQUIRE(ids[i] == first[B.orig(b)] + (int)i, "marker %zu of board %d (pattern %d) is %d, not %d", i, b, B.orig(b), ids[i], first[B.orig(b)] + (int)i);
    REQUIRE(q.charuco_board_->chessboardCorners.size() == q.nb_pts_, "pattern of board %d has %zu corners", b, q.charuco_board_->chessboardCorners.size());
  }
}
CASE(patterns, 40) {
  int n = irand(1, 6); std::vector<int> x, y; for (int i = 0; i < n; i++) { x.push_back(irand(2, 8)); y.push_back(irand(2, 8)); }
  auto d = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000); float ls = irand(2, 50) / 8.f, lm = ls / 2;
  auto m = createCharucoBoards(n, x, y, ls, lm, d); REQUIRE((int)m.size() == n, "%zu patterns, not %d", m.size(), n);
  int k = 0;
  for (int i = 0; i < n; i++) {
    auto s = m[i]->getChessboardSize(); REQUIRE(s.width == x[i] && s.height == y[i], "pattern %d is %dx%d, not %dx%d", i, s.width, s.height, x[i], y[i]);
    near(m[i]->getSquareLength(), ls, 1e-6, "square length"); near(m[i]->getMarkerLength(), lm, 1e-6, "marker length");
    for (int id : m[i]->ids) REQUIRE(id == k++, "marker %d of pattern %d, not %d", id, i, k - 1);
  }
}
CASE(generator, 10) {
  TmpDir t; Boards B = boards(false); std::vector<int> rx, ry; int cx = 40 * irand(8, 12), cy = 40 * irand(8, 12);
  if (coin()) for (int i = 0; i < B.n; i++) { rx.push_back(40 * irand(8, 12)); ry.push_back(40 * irand(8, 12)); }
  fs::path p = t.p / "gen.yml";
  config(B, B.n).set("resolution_x", S(cx)).set("resolution_y", S(cy)).set("resolution_x_per_board", L(rx)).set("resolution_y_per_board", L(ry)).write(p);
  char cwd[4096]; REQUIRE(getcwd(cwd, sizeof cwd), "cwd"); REQUIRE(!chdir(t.p.c_str()), "chdir");
  std::string a0 = "gen", a1 = p.string(); char *av[] = {&a0[0], &a1[0], nullptr};
  int rc = -1; try { rc = create_charuco_main(2, av); } catch (...) { (void)!chdir(cwd); throw; }
  REQUIRE(!chdir(cwd), "chdir"); REQUIRE(rc == 0, "the generator returns %d", rc);
  auto d = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000); int k = 0;
  for (int b = 0; b < B.n; b++) {
    char f[80]; snprintf(f, sizeof f, "charuco_boards/charuco_board_%03d.bmp", b);
    cv::Mat im = cv::imread((t.p / f).string()); REQUIRE(!im.empty(), "%s is missing", f);
    int w = rx.empty() ? cx : rx[b], h = ry.empty() ? cy : ry[b];
    REQUIRE(im.cols == w && im.rows == h, "image %d is %dx%d, not %dx%d", b, im.cols, im.rows, w, h);
    std::vector<int> ids; std::vector<std::vector<cv::Point2f>> cs; cv::aruco::detectMarkers(im, d, cs, ids);
    int m = B.X(b) * B.Y(b) / 2; size_t ok = 0;
    for (int id : ids) { REQUIRE(id >= k && id < k + m, "image %d shows marker %d, not %d..%d", b, id, k, k + m - 1); ok++; }
    REQUIRE(ok * 2 >= (size_t)m, "image %d shows %zu of %d markers", b, ok, m);
    k += m;
  }
  snprintf(cwd, sizeof cwd, "charuco_boards/charuco_board_%03d.bmp", B.n); REQUIRE(!fs::exists(t.p / cwd), "an image too many");
}

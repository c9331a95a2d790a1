#include "scene.hpp"
struct Rec { int cam, frame, board; std::string path; std::vector<int> ids; std::vector<std::pair<float, float>> pts; bool operator<(const Rec &o) const { return std::tie(cam, frame, board, path, ids, pts) < std::tie(o.cam, o.frame, o.board, o.path, o.ids, o.pts); } };
static std::multiset<Rec> records(Calibration &C) {
  std::multiset<Rec> r;
  for (auto &e : C.board_observations_) { auto &o = *e.second; Rec x{o.camera_id_, o.frame_id_, o.board_id_, C.frames_[o.frame_id_]->frame_path_[o.camera_id_].string(), o.charuco_id_, {}}; for (auto &p : o.pts_2d_) x.pts.push_back({p.x, p.y}); r.insert(x); }
  return r;
}
CASE(threads, 6) {
  TmpDir t; int nc = irand(1, 3), nb = irand(1, 2), nf = irand(2, 8); Config c(nc, nb, 5, 5); c.set("root_path", "\"" + (t.p / "img").string() + "\"");
  auto A = calib(c, t), B = calib(c, t); std::vector<std::vector<cv::String>> files(nc);
  fs::create_directory(t.p / "img");
  for (int k = 0; k < nc; k++) {
    auto d = t.p / "img" / fmt("Cam_%03d", k + 1); fs::create_directory(d);
    for (int f = 0; f < nf; f++) {
      cv::Mat im(300, 300 * nb + 10 * k, CV_8UC1, cv::Scalar(255));
      for (int b = 0; b < nb; b++) if (coin(.8)) { cv::Mat x; int s = irand(220, 280); A->boards_3d_[b]->charuco_board_->draw(cv::Size(s, s), x, 5, 1); x.copyTo(im(cv::Rect(300 * b + 10, 10, s, s))); }
      auto p = (d / fmt("%04d.%s", f, coin() ? "png" : "bmp")).string(); cv::imwrite(p, im); files[k].push_back(p);
    }
    std::ofstream(d / "notes.txt") << "no image";
  }
  A->detectBoards();
  for (int k = 0; k < nc; k++) for (int f = 0; f < nf; f++) B->detectBoardsInImageWithCamera(files[k][f], k, f);
  auto got = records(*A), want = records(*B);
  REQUIRE(got.size() == want.size(), "%zu detections instead of %zu", got.size(), want.size());
  for (auto a = want.begin(), b = got.begin(); a != want.end(); ++a, ++b) REQUIRE(!(*a < *b) && !(*b < *a), "camera %d, frame %d, board %d is not recorded the same", a->cam, a->frame, a->board);
  for (int k = 0; k < nc; k++) REQUIRE(A->cams_[k]->im_cols_ == 300 * nb + 10 * k && A->cams_[k]->im_rows_ == 300, "image size of camera %d", k);
  for (auto &e : A->frames_) REQUIRE(e.second->frame_idx_ == e.first, "frame %d", e.first);
}

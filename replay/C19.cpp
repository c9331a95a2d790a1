#include "scene.hpp"
static void closeMat(const cv::Mat &m, const std::vector<double> &want, int rows, int cols, double tol, const char *what) {
  REQUIRE(m.rows == rows && m.cols == cols, "%s is a %dx%d matrix, not %dx%d", what, m.rows, m.cols, rows, cols);
  cv::Mat d; m.convertTo(d, CV_64F);
  for (int i = 0; i < rows * cols; i++) near(d.at<double>(i / cols, i % cols), want[i], tol * (1 + std::abs(want[i])), what);
}
static void groups(Scene &s, int k) {
  auto cams = partition(s.nc, std::min(k, s.nc));
  for (size_t i = 0; i < cams.size(); i++) { auto g = s.group(i, cams[i]); for (auto &f : s.C->frames_) g->insertNewFrame(f.second); }
}
CASE(cameras, 40) {
  Scene s(irand(1, 5), 1, 1, 4, 4); auto &C = *s.C; C.save_path_ = s.tmp.p; groups(s, irand(1, 3));
  for (auto &c : C.cams_) { c.second->im_cols_ = irand(100, 2000); c.second->im_rows_ = irand(100, 2000); }
  std::string f = "calibrated_cameras_data.yml"; C.camera_params_file_name_ = ""; if (coin()) C.camera_params_file_name_ = f = "mine.yml";
  C.saveCamerasParams();
  cv::FileStorage in((s.tmp.p / f).string(), cv::FileStorage::READ); REQUIRE(in.isOpened(), "%s is missing", f.c_str());
  REQUIRE((int)in["nb_camera"] == s.nc, "nb_camera is %d, not %d", (int)in["nb_camera"], s.nc);
  int seen = 0;
  for (auto &g : C.cam_group_) for (auto &e : g.second->cameras_) {
    int c = e.first; auto n = in["camera_" + std::to_string(c)]; auto &L = s.lens[c]; auto &cam = *C.cams_[c]; seen++;
    REQUIRE(!n.empty(), "camera %d of group %d is not in the file", c, g.first);
    cv::Mat K, D, P; n["camera_matrix"] >> K; n["distortion_vector"] >> D; n["camera_pose_matrix"] >> P;
    cv::Mat K0 = cam.getCameraMat(), D0 = cam.getDistortionVectorVector(); std::vector<double> k, d; for (int i = 0; i < 9; i++) k.push_back(K0.at<double>(i / 3, i % 3)); for (int i = 0; i < (int)D0.total(); i++) d.push_back(D0.at<double>(i));
    closeMat(K, k, 3, 3, 1e-9, "camera_matrix"); closeMat(D, d, D0.rows, D0.cols, 1e-9, "distortion_vector");
    REQUIRE((int)n["distortion_type"] == L.model, "distortion_type of camera %d", c); REQUIRE(!n["camera_group"].empty() && (int)n["camera_group"] == g.first, "camera_group of camera %d", c);
    REQUIRE((int)n["img_width"] == cam.im_cols_ && (int)n["img_height"] == cam.im_rows_, "image size of camera %d", c);
    M4 T = s.cam[g.second->id_ref_cam_] * inv(s.cam[c]); std::vector<double> t; for (int i = 0; i < 16; i++) t.push_back(T(i / 4, i % 4));
    closeMat(P, t, 4, 4, 1e-5, "camera_pose_matrix");
  }
  REQUIRE(seen == s.nc, "%d cameras in groups", seen);
}
CASE(objects, 40) {
  Scene s(1, irand(1, 5), 1, irand(3, 5), irand(3, 5)); auto &C = *s.C; C.save_path_ = s.tmp.p;
  auto parts = partition(s.nb, irand(1, s.nb)); for (size_t i = 0; i < parts.size(); i++) s.object(i, parts[i]);
  C.save3DObj();
  cv::FileStorage in((s.tmp.p / "calibrated_objects_data.yml").string(), cv::FileStorage::READ); REQUIRE(in.isOpened(), "the object file is missing");
  for (auto &o : C.object_3d_) {
    cv::Mat m; in["object_" + std::to_string(o.first)]["points"] >> m;
    REQUIRE(m.rows == 5 && m.cols == (int)o.second->nb_pts_, "object %d: %dx%d matrix of %u points", o.first, m.rows, m.cols, o.second->nb_pts_);
    std::set<std::pair<int, int>> have;
    for (int i = 0; i < m.cols; i++) {
      std::pair<int, int> k{(int)m.at<float>(3, i), (int)m.at<float>(4, i)};
      REQUIRE(o.second->pts_board_2_obj_.count(k) && have.insert(k).second, "object %d: point %d of board %d", o.first, k.second, k.first);
      near(V3(m.at<float>(0, i), m.at<float>(1, i), m.at<float>(2, i)), v3(o.second->pts_3d_[o.second->pts_board_2_obj_[k]]), 1e-5, "object point");
    }
  }
}
static void detections(Scene &s, double p) {
  for (int f = 0; f < s.nf; f++) for (int c = 0; c < s.nc; c++) for (int b = 0; b < s.nb; b++) if (coin(p)) s.see(c, f, b, coin() ? -1 : irand(1, 9), 2);
}
CASE(poses, 30) {
  Scene s(irand(1, 3), irand(1, 4), irand(1, 4), 4, 4); auto &C = *s.C; C.save_path_ = s.tmp.p; detections(s, .7);
  auto parts = partition(s.nb, irand(1, s.nb)); for (size_t i = 0; i < parts.size(); i++) s.object(i, parts[i]);
  C.initAll3DObjectObs(); for (auto &o : C.object_observations_) o.second->pose_ = vec6(pose(rrot(3), rvec3(2)));
  C.save3DObjPose();
  cv::FileStorage in((s.tmp.p / "calibrated_objects_pose_data.yml").string(), cv::FileStorage::READ); REQUIRE(in.isOpened(), "the pose file is missing");
  for (auto &o : C.object_3d_) {
    cv::Mat m; in["object_" + std::to_string(o.first)]["poses"] >> m; auto &ob = o.second->object_observations_; int i = 0;
    if (ob.empty()) continue;
    REQUIRE(m.rows == 6 && m.cols == (int)ob.size(), "object %d: %dx%d matrix of %zu observations", o.first, m.rows, m.cols, ob.size());
    for (auto &e : ob) { for (int j = 0; j < 6; j++) near(m.at<double>(j, i), e.second.lock()->pose_[j], 1e-9, "object pose"); i++; }
  }
}
CASE(errors, 30) {
  Scene s(irand(1, 4), irand(1, 3), irand(1, 4), 4, 4); auto &C = *s.C; C.save_path_ = s.tmp.p; detections(s, .7);
  std::vector<int> all; for (int b = 0; b < s.nb; b++) all.push_back(b); s.object(0, all);
  C.initAll3DObjectObs(); groups(s, irand(1, 3));
  if (coin()) for (auto &g : C.cam_group_) if (g.second->frames_.size() > 1 && coin()) g.second->frames_.erase(g.second->frames_.begin()->first);
  C.initAllCameraGroupObs();
  for (auto &e : C.cams_group_obs_) for (auto &q : e.second->object_observations_) { auto o = q.second.lock(); e.second->object_pose_[o->object_3d_id_] = vec6(s.cam[C.cam_group_[e.second->cam_group_idx_]->id_ref_cam_] * s.mot(0, o->frame_id_) * s.board[0] * pose(rrot(.02), rvec3(.02))); }
  C.saveReprojectionErrorToFile();
  cv::FileStorage in((s.tmp.p / "reprojection_error_data.yml").string(), cv::FileStorage::READ); REQUIRE(in.isOpened(), "the error file is missing");
  REQUIRE((int)in["nb_camera_group"] == (int)C.cam_group_.size(), "nb_camera_group");
  for (auto &g : C.cam_group_) {
    auto n = in["camera_group_" + std::to_string(g.first)]; cv::Mat fl; n["frame_list"] >> fl; std::vector<int> fs, want;
    for (int i = 0; i < fl.rows; i++) fs.push_back(fl.at<int>(i));
    for (auto &f : g.second->frames_) want.push_back(f.first);
    REQUIRE(fs == want, "group %d lists %zu frames, not its %zu", g.first, fs.size(), want.size());
    for (int f : want) {
      auto fn = n["frame_" + std::to_string(f)]; cv::Mat cl; fn["camera_list"] >> cl; std::vector<int> cs, cw;
      for (int i = 0; i < cl.rows; i++) cs.push_back(cl.at<int>(i));
      for (auto &e : C.object_observations_) if (e.second->frame_id_ == f && g.second->cameras_.count(e.second->camera_id_)) cw.push_back(e.second->camera_id_);
      std::sort(cs.begin(), cs.end()); std::sort(cw.begin(), cw.end());
      REQUIRE(cs == cw, "frame %d of group %d lists %zu observations, not %zu", f, g.first, cs.size(), cw.size());
      for (auto &e : C.object_observations_) if (e.second->frame_id_ == f && g.second->cameras_.count(e.second->camera_id_)) {
        auto &o = *e.second; auto cn = fn["camera_" + std::to_string(o.camera_id_)]; cv::Mat el; cn["error_list"] >> el;
        REQUIRE((int)cn["nb_pts"] == (int)o.pts_id_.size() && (int)el.total() == (int)o.pts_id_.size(), "%zu errors of %zu points", el.total(), o.pts_id_.size());
        std::shared_ptr<CameraGroupObs> go; for (auto &x : C.cams_group_obs_) if (x.second->cam_group_idx_ == g.first && x.first.second == f) go = x.second;
        REQUIRE(go, "no group observation");
        M4 P = stored(g.second->relative_camera_pose_[o.camera_id_]) * stored(go->object_pose_[0]); auto obj = o.object_3d_.lock();
        for (size_t i = 0; i < o.pts_id_.size(); i++) { auto q = project(s.lens[o.camera_id_], xf(P, v3(obj->pts_3d_[o.pts_id_[i]]))); double d = std::hypot(q.x - o.pts_2d_[i].x, q.y - o.pts_2d_[i].y); near(el.at<float>(i), d, 1e-2 * (1 + d), "saved error"); }
      }
    }
  }
}
struct Rec { int cam, frame, board; std::string path; std::vector<int> ids; std::vector<std::pair<float, float>> pts; bool operator<(const Rec &o) const { return std::tie(cam, frame, board, path, ids, pts) < std::tie(o.cam, o.frame, o.board, o.path, o.ids, o.pts); } };
static std::multiset<Rec> records(Calibration &C) {
  std::multiset<Rec> r;
  for (auto &e : C.board_observations_) { auto &o = *e.second; Rec x{o.camera_id_, o.frame_id_, o.board_id_, C.frames_[o.frame_id_]->frame_path_[o.camera_id_].string(), o.charuco_id_, {}}; for (auto &p : o.pts_2d_) x.pts.push_back({p.x, p.y}); r.insert(x); }
  return r;
}
CASE(detections, 40) {
  Scene s(irand(1, 4), irand(1, 4), irand(1, 5), 4, 5); auto &C = *s.C; C.save_path_ = s.tmp.p; detections(s, coin(.2) ? .2 : .8);
  for (auto &c : C.cams_) { c.second->im_cols_ = irand(100, 2000); c.second->im_rows_ = irand(100, 2000); }
  auto want = records(C);
  C.saveDetectedKeypoints();
  Scene t(s.nc, s.nb, s.nf, 4, 5); t.C->keypoints_path_ = s.tmp.p / "detected_keypoints_data.yml"; t.C->loadDetectedKeypoints();
  auto got = records(*t.C);
  REQUIRE(got.size() == want.size(), "%zu detections loaded of %zu saved", got.size(), want.size());
  for (auto a = want.begin(), b = got.begin(); a != want.end(); ++a, ++b) REQUIRE(!(*a < *b) && !(*b < *a), "a detection of camera %d, frame %d, board %d comes back as camera %d, frame %d, board %d (or other content)", a->cam, a->frame, a->board, b->cam, b->frame, b->board);
  REQUIRE(t.C->frames_.size() == C.frames_.size(), "%zu frames instead of %zu", t.C->frames_.size(), C.frames_.size());
  for (auto &c : C.cams_) REQUIRE(t.C->cams_[c.first]->im_cols_ == c.second->im_cols_ && t.C->cams_[c.first]->im_rows_ == c.second->im_rows_, "image size of camera %d", c.first);
}

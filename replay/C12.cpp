#include "scene.hpp"
typedef std::shared_ptr<BoardObs> BO; typedef std::shared_ptr<Object3DObs> OO;
template <class M, class P> static void same(const M &m, const std::vector<P> &want, const char *what) {
  numbered(m, want.size(), what);
  size_t i = 0; for (auto &e : m) { REQUIRE(P(e.second) == want[i], "%s: entry %zu is another observation", what, i); i++; }
}
// weak or strong pointers of a map, in order
template <class P, class M> static std::vector<P> deref(const M &m) { std::vector<P> r; for (auto &e : m) r.push_back(P(e.second)); return r; }
static void eqv(const std::vector<int> &a, const std::vector<int> &b, const char *what) {
  REQUIRE(a == b, "%s: list of %zu indices differs from the expected list of %zu", what, a.size(), b.size());
}
static void checkBoards(Scene &s) {
  auto &C = *s.C;
  numbered(C.board_observations_, s.seen.size(), "board observations of the calibration");
  std::map<int, std::vector<BO>> byCam, byBoard, byFrame; std::map<std::pair<int, int>, std::vector<BO>> byView;
  std::map<int, std::vector<int>> bCam, bFrame, cFrame; std::map<std::pair<int, int>, std::vector<int>> bView;
  for (size_t i = 0; i < s.seen.size(); i++) {
    auto &e = s.seen[i]; BO o = C.board_observations_[i];
    REQUIRE(o && o == e.obs, "observation %zu was replaced", i);
    REQUIRE(o->camera_id_ == e.cam && o->frame_id_ == e.frame && o->board_id_ == e.board, "observation %zu: camera %d frame %d board %d", i, o->camera_id_, o->frame_id_, o->board_id_);
    REQUIRE(o->pts_2d_ == e.pts && o->charuco_id_ == e.ids, "observation %zu: points changed", i);
    REQUIRE(o->cam_.lock() == C.cams_[e.cam] && o->board_3d_.lock() == C.boards_3d_[e.board] && o->valid_, "observation %zu: links", i);
    if (!byView.count({e.cam, e.frame})) cFrame[e.frame].push_back(e.cam);
    byCam[e.cam].push_back(o); byBoard[e.board].push_back(o); byFrame[e.frame].push_back(o); byView[{e.cam, e.frame}].push_back(o);
    bCam[e.cam].push_back(e.board); bFrame[e.frame].push_back(e.board); bView[{e.cam, e.frame}].push_back(e.board);
  }
  REQUIRE(C.cams_.size() == (size_t)s.nc && C.boards_3d_.size() == (size_t)s.nb, "cameras or boards appeared");
  for (auto &c : C.cams_) { same(deref<BO>(c.second->board_observations_).empty() ? std::map<int, std::weak_ptr<BoardObs>>() : c.second->board_observations_, byCam[c.first], "camera"); eqv(c.second->vis_board_idx_, bCam[c.first], "boards seen by the camera"); }
  for (auto &b : C.boards_3d_) same(b.second->board_observations_, byBoard[b.first], "board");
  REQUIRE(C.frames_.size() == byFrame.size(), "%zu frames instead of %zu", C.frames_.size(), byFrame.size());
  for (auto &f : C.frames_) {
    REQUIRE(byFrame.count(f.first) && f.second->frame_idx_ == f.first, "frame index");
    same(f.second->board_observations_, byFrame[f.first], "frame"); eqv(f.second->boards_idx_, bFrame[f.first], "boards of the frame");
    eqv(f.second->cam_idx_, cFrame[f.first], "cameras of the frame");
    numbered(f.second->cam_obs_, cFrame[f.first].size(), "views of the frame");
    for (size_t i = 0; i < cFrame[f.first].size(); i++)
      REQUIRE(f.second->cam_obs_[i].lock() == C.cams_obs_[std::make_pair(cFrame[f.first][i], f.first)], "view %zu of the frame", i);
    for (int c : cFrame[f.first]) REQUIRE(f.second->frame_path_.count(c) && f.second->frame_path_[c] == fs::path("img_" + std::to_string(c) + "_" + std::to_string(f.first) + ".png"), "image path of camera %d", c);
    REQUIRE(f.second->frame_path_.size() == cFrame[f.first].size(), "image paths");
  }
  REQUIRE(C.cams_obs_.size() == byView.size(), "%zu views instead of %zu", C.cams_obs_.size(), byView.size());
  for (auto &v : C.cams_obs_) { same(v.second->board_observations_, byView[v.first], "view"); eqv(v.second->board_idx_, bView[v.first], "boards of the view"); REQUIRE(v.second->cam_idx_ == v.first.first, "camera of the view"); }
}
static void detections(Scene &s, double p) {
  std::vector<std::array<int, 3>> all;
  for (int c = 0; c < s.nc; c++) for (int f = 0; f < s.nf; f++) for (int b = 0; b < s.nb; b++) if (coin(p)) all.push_back({c, f * 3 + 1, b});
  if (coin(0.7)) std::shuffle(all.begin(), all.end(), gen());
  for (auto &a : all) s.see(a[0], a[1], a[2], irand(4, 16));
}
CASE(board_observations, 40) {
  Scene s(irand(1, 4), irand(1, 4), irand(1, 5));
  detections(s, uni(0.2, 0.9));
  checkBoards(s);
}
// every (camera, frame, object) with a visible board has one observation with all its boards
static void checkObjects(Scene &s) {
  auto &C = *s.C;
  std::set<OO> all; size_t expect = 0;
  std::map<int, std::vector<OO>> byCam, byFrame, byObj; std::map<std::pair<int, int>, std::vector<OO>> byView;
  for (auto &e : C.object_observations_) { REQUIRE(e.second && all.insert(e.second).second, "an observation is recorded twice"); }
  numbered(C.object_observations_, all.size(), "object observations of the calibration");
  std::set<std::tuple<int, int, int>> keys;
  for (auto &e : C.object_observations_) {
    auto &o = *e.second;
    REQUIRE(keys.insert({o.camera_id_, o.frame_id_, o.object_3d_id_}).second, "object %d has two observations in camera %d, frame %d", o.object_3d_id_, o.camera_id_, o.frame_id_);
    byCam[o.camera_id_].push_back(e.second); byFrame[o.frame_id_].push_back(e.second); byObj[o.object_3d_id_].push_back(e.second); byView[{o.camera_id_, o.frame_id_}].push_back(e.second);
  }
  for (auto &v : C.cams_obs_) for (auto &ob : C.object_3d_) {
    std::vector<BO> bs; std::vector<int> ids, bid; std::vector<cv::Point2f> pts;
    for (auto &e : s.seen) if (e.cam == v.first.first && e.frame == v.first.second && ob.second->boards_.count(e.board)) {
      bs.push_back(e.obs); bid.push_back(e.board);
      for (size_t i = 0; i < e.pts.size(); i++) { pts.push_back(e.pts[i]); ids.push_back(ob.second->pts_board_2_obj_[{e.board, e.ids[i]}]); }
    }
    if (bs.empty()) { REQUIRE(!keys.count({v.first.first, v.first.second, ob.first}), "object %d is not visible in this view", ob.first); continue; }
    expect++;
    OO o; for (auto &e : C.object_observations_) if (e.second->camera_id_ == v.first.first && e.second->frame_id_ == v.first.second && e.second->object_3d_id_ == ob.first) o = e.second;
    REQUIRE(o, "object %d has no observation in camera %d, frame %d", ob.first, v.first.first, v.first.second);
    REQUIRE(o->object_3d_.lock() == ob.second && o->cam_.lock() == C.cams_[v.first.first], "links of the object observation");
    same(o->board_observations_, bs, "boards of the object observation"); eqv(o->board_id_, bid, "board identifiers of the object observation");
    REQUIRE(o->pts_2d_ == pts, "image points of the object observation"); eqv(o->pts_id_, ids, "point identifiers of the object observation");
  }
  REQUIRE(all.size() == expect, "%zu object observations instead of %zu", all.size(), expect);
  auto ids = [](const std::vector<OO> &v) { std::vector<int> r; for (auto &o : v) r.push_back(o->object_3d_id_); return r; };
  for (auto &c : C.cams_) { same(c.second->object_observations_, byCam[c.first], "objects of the camera"); eqv(c.second->vis_object_idx_, ids(byCam[c.first]), "object indices of the camera"); }
  for (auto &f : C.frames_) { same(f.second->object_observations_, byFrame[f.first], "objects of the frame"); eqv(f.second->objects_idx_, ids(byFrame[f.first]), "object indices of the frame"); }
  for (auto &v : C.cams_obs_) { same(v.second->object_observations_, byView[v.first], "objects of the view"); eqv(v.second->object_idx_, ids(byView[v.first]), "object indices of the view"); }
  for (auto &o : C.object_3d_) {
    same(o.second->object_observations_, byObj[o.first], "observations of the object");
    std::set<int> fr; for (auto &x : byObj[o.first]) fr.insert(x->frame_id_);
    for (int f : fr) REQUIRE(o.second->frames_.count(f) && o.second->frames_[f].lock() == C.frames_[f], "frame %d of the object", f);
  }
}
static void checkGroups(Scene &s) {
  auto &C = *s.C; size_t expect = 0;
  std::map<int, std::vector<std::shared_ptr<CameraGroupObs>>> byFrame; std::map<int, std::vector<int>> gFrame;
  for (auto &g : C.cam_group_) {
    std::vector<OO> all;
    for (auto &f : C.frames_) {
      std::vector<OO> os; std::vector<int> ids;
      for (auto &e : f.second->object_observations_) { OO o = e.second.lock(); if (g.second->cameras_.count(o->camera_id_)) { os.push_back(o); ids.push_back(o->object_3d_id_); all.push_back(o); } }
      auto it = C.cams_group_obs_.find({g.first, f.first});
      if (os.empty()) { REQUIRE(it == C.cams_group_obs_.end(), "group %d sees nothing in frame %d", g.first, f.first); continue; }
      REQUIRE(it != C.cams_group_obs_.end() && it->second, "group %d has no observation in frame %d", g.first, f.first);
      expect++;
      same(it->second->object_observations_, os, "objects of the group observation"); eqv(it->second->object_idx_, ids, "object indices of the group observation");
      REQUIRE(it->second->cam_group_.lock() == g.second && it->second->cam_group_idx_ == g.first && it->second->quaternion_averaging_ == C.quaternion_averaging_, "group of the group observation");
      byFrame[f.first].push_back(it->second); gFrame[f.first].push_back(g.first);
      REQUIRE(g.second->frames_.count(f.first) && g.second->frames_[f.first].lock() == f.second, "frame of the group");
    }
    same(g.second->object_observations_, all, "objects of the group");
  }
  REQUIRE(C.cams_group_obs_.size() == expect, "%zu group observations instead of %zu", C.cams_group_obs_.size(), expect);
  for (auto &f : C.frames_) { same(f.second->cam_group_observations_, byFrame[f.first], "groups of the frame"); eqv(f.second->cam_group_idx_, gFrame[f.first], "group indices of the frame"); }
}
CASE(objects_and_groups, 40) {
  Scene s(irand(1, 4), irand(1, 5), irand(1, 4));
  detections(s, uni(0.2, 0.9));
  auto po = partition(s.nb, irand(1, s.nb)); int i = 0;
  for (auto &g : po) s.object(i++, g);
  s.C->quaternion_averaging_ = iter & 1;
  s.C->initAll3DObjectObs();
  checkBoards(s); checkObjects(s);
  auto pg = partition(s.nc, irand(1, s.nc)); i = 0;
  for (auto &g : pg) s.group(i++, g);
  s.C->initAllCameraGroupObs();
  checkBoards(s); checkObjects(s); checkGroups(s);
}
CASE(merging, 40) {
  Scene s(irand(1, 4), irand(2, 5), irand(1, 4));
  detections(s, uni(0.3, 0.9));
  auto po = partition(s.nb, irand(2, s.nb)); int i = 0;
  for (auto &g : po) s.object(i++, g);
  s.C->initAll3DObjectObs();
  auto pg = partition(s.nc, irand(1, s.nc)); i = 0;
  for (auto &g : pg) s.group(i++, g);
  s.C->initAllCameraGroupObs();
  // camera groups are merged first
  pg = partition(s.nc, irand(1, s.nc)); s.C->cam_group_.clear(); i = 0;
  for (auto &g : pg) s.group(i++, g);
  s.C->mergeAllCameraGroupObs();
  checkBoards(s); checkObjects(s); checkGroups(s);
  // then objects, then the group observations again
  po = partition(s.nb, irand(1, s.nb)); s.C->object_3d_.clear(); i = 0;
  for (auto &g : po) s.object(i++, g);
  s.C->mergeAllObjectObs();
  checkBoards(s); checkObjects(s);
  s.C->mergeAllCameraGroupObs();
  checkObjects(s); checkGroups(s);
}

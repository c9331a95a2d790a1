#include "scene.hpp"
#include "average.hpp"
static V3 rotv(const std::array<double, 6> &p) { return V3(p[0], p[1], p[2]); }
static V3 trnv(const std::array<double, 6> &p) { return V3(p[3], p[4], p[5]); }
CASE(poses, 80) {
  Scene s(irand(1, 5), irand(1, 4), irand(1, 4), 3, 3); auto &C = *s.C;
  C.quaternion_averaging_ = coin();
  double p = uni(0.3, 0.9);
  for (int f = 0; f < s.nf; f++) for (int c = 0; c < s.nc; c++) for (int b = 0; b < s.nb; b++) if (coin(p)) s.see(c, f, b);
  auto groups = partition(s.nb, irand(1, s.nb));
  for (size_t i = 0; i < groups.size(); i++) s.object(i, groups[i]);
  C.initAll3DObjectObs();
  auto cams = partition(s.nc, irand(1, std::max(1, s.nc - 1)));
  for (size_t i = 0; i < cams.size(); i++) {
    auto g = s.group(i, cams[i]);
    g->id_ref_cam_ = cams[i][irand(0, cams[i].size() - 1)];
    for (int f = 0; f < s.nf; f++) if (C.frames_.count(f)) g->insertNewFrame(C.frames_[f]);
  }
  C.initAllCameraGroupObs();
  // neighbouring poses, so that averages are well defined
  std::map<int, V3> centre; std::map<int, M4> own;
  for (auto &e : C.object_observations_) {
    auto &o = *e.second; int g = -1;
    for (auto &x : C.cam_group_) if (x.second->relative_camera_pose_.count(o.camera_id_)) g = x.first;
    M4 cam = stored(C.cam_group_[g]->relative_camera_pose_[o.camera_id_]);
    if (!centre.count(o.object_3d_id_)) centre[o.object_3d_id_] = rrot(2.2);
    M4 want = pose(centre[o.object_3d_id_] + rvec3(0.2), rvec3(2));
    o.pose_ = vec6(cam * want);
    own[e.first] = inv(cam) * stored(o.pose_);
    if (coin()) o.group_pose_ = vec6(rpose());
  }
  C.computeAllObjPoseInCameraGroup();
  std::set<int> done;
  for (auto &e : C.cams_group_obs_) {
    auto &g = *e.second; std::map<int, std::vector<std::shared_ptr<Object3DObs>>> by;
    for (auto &q : g.object_observations_) { auto o = q.second.lock(); by[o->object_3d_id_].push_back(o); }
    REQUIRE(g.object_pose_.size() == by.size(), "the group observation holds %zu object poses for %zu objects", g.object_pose_.size(), by.size());
    for (auto &k : by) {
      std::vector<V3> rs; V3 t(0, 0, 0); std::shared_ptr<Object3DObs> ref; M4 refp;
      for (auto &o : k.second) {
        int id = -1; for (auto &x : C.object_observations_) if (x.second == o) id = x.first;
        auto six = vec6(own[id]); rs.push_back(rotv(six)); t = t + trnv(six);
        if (o->camera_id_ == C.cam_group_[g.cam_group_idx_]->id_ref_cam_) { ref = o; refp = own[id]; }
      }
      auto got = g.object_pose_[k.first];
      if (ref) near(stored(got), refp, 1e-6, "object pose seen by the reference camera");
      else { checkRot(rs, C.quaternion_averaging_, rotv(got), "average rotation"); near(trnv(got), t * (1.0 / rs.size()), 1e-6, "average translation"); }
      for (auto &o : k.second) near(stored(o->group_pose_), stored(got), 1e-9, "pose in the group of an observation");
    }
  }
}
CASE(write_back, 40) {
  Scene s(irand(1, 4), irand(1, 4), 2, 3, 3); auto &C = *s.C;
  for (int f = 0; f < s.nf; f++) for (int c = 0; c < s.nc; c++) for (int b = 0; b < s.nb; b++) if (coin(0.7)) s.see(c, f, b);
  auto groups = partition(s.nb, irand(1, s.nb));
  for (size_t i = 0; i < groups.size(); i++) s.object(i, groups[i]);
  C.initAll3DObjectObs();
  std::vector<int> all; for (int c = 0; c < s.nc; c++) all.push_back(c);
  s.group(0, all);
  C.initAllCameraGroupObs();
  for (auto &e : C.cams_group_obs_) {
    auto &g = *e.second; std::map<int, M4> P, before;
    for (auto &q : g.object_observations_) { auto o = q.second.lock(); P[o->object_3d_id_] = rpose(); o->pose_ = vec6(rpose()); before[q.first] = stored(o->pose_); }
    for (auto &k : P) g.object_pose_[k.first] = vec6(k.second);
    g.updateObjObsPose();
    for (auto &q : g.object_observations_) { auto o = q.second.lock(); near(stored(o->group_pose_), P[o->object_3d_id_], 1e-6, "pose written back"); near(stored(o->pose_), before[q.first], 1e-9, "pose in the camera"); }
    for (auto &k : P) near(stored(g.object_pose_[k.first]), k.second, 1e-6, "pose of the object");
  }
}

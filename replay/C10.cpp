#include "scene.hpp"
typedef std::map<std::pair<int, int>, std::vector<M4>> Pairs;
static void same(const std::map<std::pair<int, int>, std::vector<cv::Mat>> &got, Pairs want, const char *what) {
  REQUIRE(got.size() == want.size(), "%s: %zu pairs instead of %zu", what, got.size(), want.size());
  for (auto &e : got) {
    auto k = e.first;
    REQUIRE(k.first != k.second && want.count(k), "%s: unexpected pair (%d,%d)", what, k.first, k.second);
    auto w = want[k];
    REQUIRE(e.second.size() == w.size(), "%s: pair (%d,%d) has %zu poses instead of %zu", what, k.first, k.second, e.second.size(), w.size());
    for (auto &m : e.second) {
      M4 P = m4(m); bool hit = false;
      for (size_t i = 0; i < w.size(); i++) if (dist(w[i], P) < 1e-6) { w.erase(w.begin() + i); hit = true; break; }
      REQUIRE(hit, "%s: a pose of pair (%d,%d) is not that of a common observation", what, k.first, k.second);
    }
  }
}
static void graph(Graph &g, const std::set<int> &verts, const Pairs &want, const char *what) {
  auto G = g.getGraph();
  std::multiset<std::string> a, b;
  for (auto p = boost::vertices(G); p.first != p.second; ++p.first) a.insert(boost::get(boost::vertex_name, G, *p.first));
  for (int v : verts) b.insert(std::to_string(v));
  REQUIRE(a == b, "%s graph: wrong vertices (%zu, expected %zu)", what, a.size(), b.size());
  std::multiset<std::tuple<int, int, int>> c, d;
  for (auto p = boost::edges(G); p.first != p.second; ++p.first) {
    int x = std::stoi(boost::get(boost::vertex_name, G, boost::source(*p.first, G))), y = std::stoi(boost::get(boost::vertex_name, G, boost::target(*p.first, G)));
    c.insert({std::min(x, y), std::max(x, y), (int)std::lround(1e6 * boost::get(boost::edge_weight, G, *p.first))});
  }
  for (auto &e : want) d.insert({std::min(e.first.first, e.first.second), std::max(e.first.first, e.first.second), (int)std::lround(1e6 / e.second.size())});
  REQUIRE(c == d, "%s graph: edges or weights differ", what);
}
static std::shared_ptr<Scene> scene() {
  auto s = std::make_shared<Scene>(irand(1, 4), irand(1, 5), irand(1, 5), 3, 3);
  double p = uni(0.2, 0.9);
  for (int f = 0; f < s->nf; f++) for (int c = 0; c < s->nc; c++) for (int b = 0; b < s->nb; b++) if (coin(p)) {
    auto &v = s->see(c, f, b); if (v.obs) v.obs->pose_ = vec6(rpose());
  }
  return s;
}
CASE(boards, 60) {
  auto s = scene(); auto &C = *s->C;
  if (coin()) C.computeBoardsPairPose();
  C.computeBoardsPairPose();
  Pairs w; std::set<int> verts;
  for (auto &a : s->seen) { verts.insert(a.board); for (auto &b : s->seen)
    if (a.cam == b.cam && a.frame == b.frame && a.board != b.board) w[{a.board, b.board}].push_back(inv(stored(b.obs->pose_)) * stored(a.obs->pose_)); }
  same(C.board_pose_pairs_, w, "boards");
  if (coin()) C.covis_boards_graph_.addEdge(77, 78, 1);
  C.initInterBoardsGraph();
  graph(C.covis_boards_graph_, verts, w, "board");
}
CASE(cameras, 60) {
  auto s = scene(); auto &C = *s->C;
  auto groups = partition(s->nb, irand(1, s->nb));
  for (size_t i = 0; i < groups.size(); i++) s->object(i, groups[i]);
  C.initAll3DObjectObs();
  struct O { int c, f, o; M4 P; }; std::vector<O> obs; std::set<int> verts;
  for (auto &e : C.object_observations_) { e.second->pose_ = vec6(rpose()); obs.push_back({e.second->camera_id_, e.second->frame_id_, e.second->object_3d_id_, stored(e.second->pose_)}); }
  if (coin()) C.computeCamerasPairPose();
  C.computeCamerasPairPose();
  Pairs w;
  for (auto &a : obs) for (auto &b : obs) if (a.f == b.f && a.o == b.o && a.c != b.c) w[{a.c, b.c}].push_back(b.P * inv(a.P));
  for (auto &a : s->seen) verts.insert(a.cam);
  same(C.camera_pose_pairs_, w, "cameras");
  C.initInterCamerasGraph();
  graph(C.covis_camera_graph_, verts, w, "camera");
}
CASE(objects, 60) {
  auto s = scene(); auto &C = *s->C;
  auto groups = partition(s->nb, irand(1, s->nb));
  for (size_t i = 0; i < groups.size(); i++) s->object(i, groups[i]);
  C.initAll3DObjectObs();
  auto cams = partition(s->nc, irand(1, s->nc));
  for (size_t i = 0; i < cams.size(); i++) s->group(i, cams[i]);
  C.initAllCameraGroupObs();
  Pairs w; std::set<int> verts;
  for (auto &e : C.cams_group_obs_) {
    std::map<int, M4> P;
    for (auto &q : e.second->object_observations_) { auto o = q.second.lock(); if (o && !P.count(o->object_3d_id_)) { P[o->object_3d_id_] = rpose(); e.second->object_pose_[o->object_3d_id_] = vec6(P[o->object_3d_id_]); } }
    for (auto &x : e.second->object_observations_) for (auto &y : e.second->object_observations_) {
      int a = x.second.lock()->object_3d_id_, b = y.second.lock()->object_3d_id_;
      if (a != b) w[{a, b}].push_back(inv(P[b]) * P[a]);
    }
  }
  for (auto &e : C.object_observations_) verts.insert(e.second->object_3d_id_);
  if (coin()) C.computeObjectsPairPose();
  C.computeObjectsPairPose();
  same(C.object_pose_pairs_, w, "objects");
  C.initInterObjectsGraph();
  graph(C.covis_objects_graph_, verts, w, "object");
}

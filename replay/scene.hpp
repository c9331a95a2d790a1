// synthetic calibration scenes: rigid objects made of boards, moving in front of cameras
#pragma once
#include "common.hpp"
namespace H {
struct Seen { int cam, frame, board; std::vector<cv::Point2f> pts; std::vector<int> ids; fs::path path; std::shared_ptr<BoardObs> obs; };
struct Scene {
  TmpDir tmp;
  std::shared_ptr<Calibration> C;
  int nc, nb, nf;
  std::vector<Lens> lens;
  std::vector<M4> cam, board;     // world -> camera, board -> world (before the motion of the frame)
  std::map<int, M4> motion;       // of everything that carries boards, per frame
  std::map<int, int> carrier;     // board -> rigid body it belongs to (0 by default)
  std::map<std::pair<int, int>, M4> motions; // (body, frame)
  std::vector<Seen> seen;
  Scene(int ncam, int nboard, int nframe, int nx = 5, int ny = 5, int model = -1) : nc(ncam), nb(nboard), nf(nframe) {
    C = calib(Config(ncam, nboard, nx, ny), tmp);
    for (int c = 0; c < nc; c++) {
      lens.push_back(rlens(model < 0 ? irand(0, 1) : model));
      cam.push_back(pose(rrot(), V3(uni(-.3, .3), uni(-.3, .3), uni(4, 6))));
      setLens(*C->cams_[c], lens[c]);
    }
    for (int b = 0; b < nb; b++) board.push_back(pose(rrot(), rvec3(0.4)));
  }
  M4 mot(int body, int f) {
    auto k = std::make_pair(body, f);
    if (!motions.count(k)) motions[k] = pose(rrot(2), rvec3(0.3));
    return motions[k];
  }
  M4 truth(int c, int f, int b) { return cam[c] * mot(carrier.count(b) ? carrier[b] : 0, f) * board[b]; }
  // camera c sees n points (all by default) of board b in frame f
  Seen &see(int c, int f, int b, int n = -1, double noise = 0) {
    Seen s; s.cam = c; s.frame = f; s.board = b; s.path = "img_" + std::to_string(c) + "_" + std::to_string(f) + ".png";
    auto &B = *C->boards_3d_[b];
    std::vector<int> all; for (int i = 0; i < (int)B.pts_3d_.size(); i++) all.push_back(i);
    if (n >= 0 && n < (int)all.size()) { std::shuffle(all.begin(), all.end(), gen()); all.resize(n); std::sort(all.begin(), all.end()); }
    s.ids = all;
    M4 P = truth(c, f, b);
    for (int i : all) { auto q = project(lens[c], xf(P, v3(B.pts_3d_[i]))); s.pts.push_back(cv::Point2f(q.x + noise * uni(-1, 1), q.y + noise * uni(-1, 1))); }
    C->insertNewBoard(c, f, b, s.pts, s.ids, s.path);
    auto it = C->board_observations_.find(seen.size());
    if (it != C->board_observations_.end()) {
      s.obs = it->second;
      if (s.obs) s.obs->pose_ = vec6(P);
    }
    seen.push_back(s);
    return seen.back();
  }
  // a rigid object made of the given boards, tables and points as the property describes them
  std::shared_ptr<Object3D> object(int id, std::vector<int> boards) {
    std::sort(boards.begin(), boards.end());
    auto o = std::make_shared<Object3D>((int)boards.size(), boards[0], id, std::array<int, 3>{1, 2, 3});
    int n = 0;
    std::vector<int> order = boards; // points of merged objects are not stored in the order of the boards
    if (coin()) std::shuffle(order.begin(), order.end(), gen());
    for (int b : order) {
      auto B = C->boards_3d_[b];
      o->boards_[b] = B; o->nb_pts_ += B->nb_pts_;
      M4 T = inv(board[boards[0]]) * board[b];
      o->relative_board_pose_[b] = vec6(T);
      for (int i = 0; i < (int)B->pts_3d_.size(); i++) {
        V3 p = xf(T, v3(B->pts_3d_[i]));
        o->pts_3d_.push_back(cv::Point3f(p[0], p[1], p[2]));
        o->pts_board_2_obj_[{b, i}] = n; o->pts_obj_2_board_.push_back({b, i}); n++;
      }
    }
    C->object_3d_[id] = o;
    return o;
  }
  std::shared_ptr<CameraGroup> group(int id, std::vector<int> cams) {
    std::sort(cams.begin(), cams.end());
    auto g = std::make_shared<CameraGroup>(cams[0], id);
    for (int c : cams) { g->cameras_[c] = C->cams_[c]; g->cam_idx.push_back(c); g->relative_camera_pose_[c] = vec6(cam[c] * inv(cam[cams[0]])); }
    C->cam_group_[id] = g;
    return g;
  }
};
// the indices 0..n-1 split into groups
inline std::vector<std::vector<int>> partition(int n, int groups) {
  std::vector<std::vector<int>> r(groups);
  std::vector<int> a; for (int i = 0; i < n; i++) a.push_back(i);
  std::shuffle(a.begin(), a.end(), gen());
  for (int i = 0; i < n; i++) r[i < groups ? i : irand(0, groups - 1)].push_back(a[i]);
  for (auto &g : r) std::sort(g.begin(), g.end());
  std::sort(r.begin(), r.end());
  return r;
}
template <class M> inline void numbered(const M &m, size_t n, const char *what) {
  REQUIRE(m.size() == n, "%s holds %zu entries, not %zu", what, m.size(), n);
  int i = 0; for (auto &e : m) { REQUIRE(e.first == i, "%s: identifiers are not consecutive", what); i++; }
}
} // namespace H

// measured pairs between the elements of connected components
#pragma once
#include "scene.hpp"
// a random forest (plus some extra edges) over the members of each component, edges as measured pairs
static std::vector<std::pair<int, int>> forest(const std::vector<std::vector<int>> &comps) {
  std::vector<std::pair<int, int>> e;
  for (auto comp : comps) {
    std::shuffle(comp.begin(), comp.end(), gen());
    bool line = coin();
    for (size_t i = 1; i < comp.size(); i++) e.push_back({comp[line ? i - 1 : irand(0, i - 1)], comp[i]});
    if (coin(0.3)) for (size_t i = 0; i < comp.size(); i++) for (size_t j = i + 2; j < comp.size(); j++) if (coin(0.2)) e.push_back({comp[i], comp[j]});
  }
  std::shuffle(e.begin(), e.end(), gen());
  return e;
}
template <class F> static void measure(Graph &g, std::map<std::pair<int, int>, cv::Mat> &inter, const std::vector<std::vector<int>> &comps, F rel) {
  g.clearGraph();
  std::vector<int> all; for (auto &c : comps) for (int v : c) all.push_back(v);
  std::sort(all.begin(), all.end());
  for (int v : all) g.addVertex(v);
  for (auto e : forest(comps)) {
    double w = 1.0 / irand(1, 6);
    inter[e] = mat(rel(e.first, e.second)); inter[{e.second, e.first}] = mat(rel(e.second, e.first));
    g.addEdge(e.first, e.second, w); g.addEdge(e.second, e.first, w);
  }
}
static std::vector<std::vector<int>> comps(int n) { return partition(n, irand(1, std::min(n, 3))); }
template <class M, class F> static int holder(const M &m, F has) { int r = -1; for (auto &e : m) if (has(*e.second)) { if (r >= 0) FAILF("element belongs to two groups"); r = e.first; } if (r < 0) FAILF("element belongs to no group"); return r; }

#include "common.hpp"
struct E { int a, b; double w; };
struct Model {
  std::vector<int> v; std::vector<E> e;
  bool has(int x) const { return std::find(v.begin(), v.end(), x) != v.end(); }
  void add(int x) { if (!has(x)) v.push_back(x); }
  std::map<int, double> dist(int s) const {
    std::map<int, double> d; d[s] = 0;
    for (size_t k = 0; k <= v.size(); k++) for (auto &x : e) for (int t = 0; t < 2; t++) {
      int a = t ? x.b : x.a, b = t ? x.a : x.b;
      if (d.count(a) && (!d.count(b) || d[b] > d[a] + x.w + 1e-15)) d[b] = d[a] + x.w;
    }
    return d;
  }
  double edge(int a, int b) const { double m = -1; for (auto &x : e) if ((x.a == a && x.b == b) || (x.a == b && x.b == a)) m = m < 0 ? x.w : std::min(m, x.w); return m; }
};
static void build(Graph &g, Model &m, int iter, int scheme) {
  int n = irand(1, 9), range = irand(n, 40);
  for (int i = 0; i < n; i++) if (coin(0.7)) { int x = irand(0, range); g.addVertex(x); m.add(x); if (coin(0.2)) { g.addVertex(x); } }
  int k = irand(0, 14);
  for (int i = 0; i < k; i++) {
    int a, b;
    if (m.v.size() >= 2 && coin(0.8)) { a = m.v[irand(0, m.v.size() - 1)]; b = m.v[irand(0, m.v.size() - 1)]; } else { a = irand(0, range); b = irand(0, range); }
    if (a == b && coin(0.7)) continue;
    double w = scheme == 0 ? 1.0 / irand(1, 30) : scheme == 1 ? uni(0.01, 5) : irand(1, 4);
    g.addEdge(a, b, w); m.add(a); m.add(b); m.e.push_back({a, b, w});
  }
}
static void content(Graph &g, const Model &m) {
  auto G = g.getGraph();
  REQUIRE(boost::num_vertices(G) == m.v.size(), "%zu vertices instead of %zu", (size_t)boost::num_vertices(G), m.v.size());
  REQUIRE(boost::num_edges(G) == m.e.size(), "%zu edges instead of %zu", (size_t)boost::num_edges(G), m.e.size());
  std::multiset<std::string> a, b; for (auto p = boost::vertices(G); p.first != p.second; ++p.first) a.insert(boost::get(boost::vertex_name, G, *p.first));
  for (int x : m.v) b.insert(std::to_string(x));
  REQUIRE(a == b, "vertex names");
  std::multiset<std::tuple<int, int, double>> c, d;
  for (auto p = boost::edges(G); p.first != p.second; ++p.first) {
    int x = std::stoi(boost::get(boost::vertex_name, G, boost::source(*p.first, G))), y = std::stoi(boost::get(boost::vertex_name, G, boost::target(*p.first, G)));
    c.insert({std::min(x, y), std::max(x, y), boost::get(boost::edge_weight, G, *p.first)});
  }
  for (auto &e : m.e) d.insert({std::min(e.a, e.b), std::max(e.a, e.b), e.w});
  REQUIRE(c == d, "edges");
}
CASE(content_and_components, 300) {
  Graph g; Model m;
  if (iter % 4 == 3) { build(g, m, iter, 0); g.clearGraph(); m = Model(); }
  REQUIRE(g.connectedComponents().size() == m.v.size() || m.v.size(), "components of an empty graph");
  build(g, m, iter, iter % 3);
  content(g, m);
  auto cc = g.connectedComponents();
  std::map<int, int> comp; size_t n = 0;
  for (size_t i = 0; i < cc.size(); i++) { REQUIRE(!cc[i].empty(), "empty component"); for (int x : cc[i]) { REQUIRE(m.has(x) && !comp.count(x), "vertex %d", x); comp[x] = i; n++; } }
  REQUIRE(n == m.v.size(), "components hold %zu of %zu vertices", n, m.v.size());
  for (int x : m.v) { auto d = m.dist(x); for (int y : m.v) REQUIRE((comp[x] == comp[y]) == (d.count(y) > 0), "vertices %d and %d", x, y); }
  content(g, m);
}
static void paths(int iter, int scheme) {
  Graph g; Model m; build(g, m, iter, scheme);
  for (int x : m.v) { auto d = m.dist(x); for (int y : m.v) {
    auto p = g.shortestPathBetween(x, y);
    if (!d.count(y)) { REQUIRE(p.empty(), "path from %d to %d, which is unreachable", x, y); continue; }
    REQUIRE(!p.empty() && p.front() == x && p.back() == y, "path from %d to %d has other ends", x, y);
    double w = 0;
    for (size_t i = 0; i + 1 < p.size(); i++) { double e = m.edge(p[i], p[i + 1]); REQUIRE(e >= 0, "no edge %d-%d", p[i], p[i + 1]); w += e; }
    REQUIRE(std::abs(w - d[y]) < 1e-9, "path from %d to %d weighs %.6f, the cheapest %.6f", x, y, w, d[y]);
  } }
  int q = -7; if (!m.v.empty()) { REQUIRE(g.shortestPathBetween(q, m.v[0]).empty() && g.shortestPathBetween(m.v[0], q).empty(), "missing end"); }
  REQUIRE(g.shortestPathBetween(q, q).empty(), "missing ends");
  content(g, m);
}
CASE(paths_inverse_counts, 150) { paths(iter, 0); }
CASE(paths_real_weights, 150) { paths(iter, 1); }
CASE(paths_integer_weights, 150) { paths(iter, 2); }

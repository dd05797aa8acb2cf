// Graphs against a set-of-edges model after every insertion.
#include "vh.hpp"
#include "virg/nexus/nx_graph.h"
#include "virg/nexus/nx_log.h"
using namespace vh;
typedef std::map<std::pair<int, int>, double> E;
static double weight(Rng &r) { switch (r.i(0, 7)) { case 0: return 0; case 1: return -r.uni(0, 9); case 2: return INFINITY; case 3: return 1e308; case 4: return -DBL_MAX; default: return r.uni(-5, 5); } }
static std::string name(Rng &r) { std::string s; for (int i = r.size(60, 5000); i > 0; --i) s += (char)r.i(1, 255); return s; }
static void cmp(Ctx &c, const E &m, int n, const NXGraphAdjMat *a, const NXGraphAdjLst *l) {
    std::set<std::pair<int, int>> und; for (auto &e : m) und.insert({std::min(e.first.first, e.first.second), std::max(e.first.first, e.first.second)}); REQ(c, a->n_v == n && l->n_v == n, "vertex counts %d %d of %d", a->n_v, l->n_v, n); REQ(c, a->n_e == (int)und.size(), "adjacency matrix graph counts %d edges of %zu", a->n_e, und.size()); REQ(c, l->n_e == (int)und.size(), "adjacency list graph counts %d edges of %zu", l->n_e, und.size());
    for (int v = 0; v < n; ++v) { std::set<int> seen; int deg = 0; for (auto *e = l->edges[v]; e; e = e->next) { REQ(c, seen.insert(e->v).second, "vertex %d lists neighbour %d twice", v, e->v); auto f = m.find({v, e->v}); REQ(c, f != m.end(), "list reports an edge %d-%d that was not inserted", v, e->v); REQ(c, f->second == e->weight, "list weight of %d-%d is %g expected %g", v, e->v, e->weight, f->second); ++deg; } int want = 0; for (int w = 0; w < n; ++w) { auto f = m.find({v, w}); double x = a->weights[(size_t)w * n + v], q = f == m.end() ? NX_ABSENT_EDGE_WEIGHT : f->second; want += f != m.end(); REQ(c, x == q, "matrix weight of %d-%d is %g expected %g", v, w, x, q); auto *e = nx_graph_edge_list_seach(l->edges[v], w); REQ(c, (e != nullptr) == (f != m.end()) && (!e || (e->v == w && e->weight == f->second)), "searching neighbour %d of %d", w, v); } REQ(c, deg == want, "vertex %d has %d listed neighbours of %d", v, deg, want); }
    c.ev("graph_comparisons");
}
static void graph(Ctx &c) {
    auto &r = c.rng; int n = r.coin(1, 10) ? r.i(0, 1) : r.i(1, 14); std::string nm = name(r); bool nul = r.coin(1, 4); auto *a = nx_graph_new_adj_mat(nul ? nullptr : nm.c_str(), n); auto *l = nx_graph_new_adj_lst(nul ? nullptr : nm.c_str(), n); REQ(c, std::string(a->name) == (nul ? "G" : nm) && std::string(l->name) == (nul ? "G" : nm), "graph names '%s' '%s'", a->name, l->name); E m; int ops = n ? r.i(0, 60) : 0; c.desc("%d vertices:", n); cmp(c, m, n, a, l); for (int o = 0; o < ops; ++o) { int v = r.i(0, n - 1), w = r.coin(1, 12) ? v : r.i(0, n - 1); double x = weight(r); if (!m.empty() && r.coin(1, 4)) { auto it = m.begin(); std::advance(it, r.i(0, (int)m.size() - 1)); v = it->first.first; w = it->first.second; } c.desc(" %d-%d:%g", v, w, x); c.mix(v * 100 + w); nx_graph_insert_adj_mat(a, v, w, x); nx_graph_insert_adj_lst(l, v, w, x); if (v != w) m[{v, w}] = m[{w, v}] = x; cmp(c, m, n, a, l); if (m.size() > 3) c.nt(); } nx_graph_free_adj_mat(a); nx_graph_free_adj_lst(l); nx_graph_free_adj_mat(nullptr); nx_graph_free_adj_lst(nullptr);
}
static void big(Ctx &c) { auto &r = c.rng; int n = r.coin(1, 4) ? r.logsize(250, 1500) : r.i(50, 250); auto *a = nx_graph_new_adj_mat("big", n); auto *l = nx_graph_new_adj_lst("big", n); E m; int ops = r.i(100, n > 250 ? 8000 : 3000); c.desc("%d vertices %d insertions", n, ops); c.mix(n * 10000 + ops); c.nt(); for (int o = 0; o < ops; ++o) { int v = r.i(0, n - 1), w = r.coin(1, 3) ? r.i(0, 3) % n : r.i(0, n - 1); double x = weight(r); nx_graph_insert_adj_mat(a, v, w, x); nx_graph_insert_adj_lst(l, v, w, x); if (v != w) m[{v, w}] = m[{w, v}] = x; } cmp(c, m, n, a, l); nx_graph_free_adj_mat(a); nx_graph_free_adj_lst(l); }
static void lists(Ctx &c) { auto &r = c.rng; NXGraphEdge *h = nullptr; std::vector<std::pair<int, double>> m; int n = r.size(200, 5000); c.desc("%d edges", n); c.mix(r.next()); if (n > 1) c.nt(); for (int i = 0; i < n; ++i) { int v = r.i(0, 50); double w = weight(r); h = nx_graph_edge_new(v, w, h); REQ(c, h->v == v && h->weight == w, "new edge"); m.insert(m.begin(), {v, w}); } auto *e = h; for (auto &q : m) { REQ(c, e && e->v == q.first && e->weight == q.second, "edge list order"); e = e->next; } REQ(c, !e, "edge list too long"); for (int v = 0; v <= 51; ++v) { auto *f = nx_graph_edge_list_seach(h, v); auto it = std::find_if(m.begin(), m.end(), [&](auto &q) { return q.first == v; }); REQ(c, (f != nullptr) == (it != m.end()) && (!f || f->weight == it->second), "search for %d", v); } nx_graph_edge_list_free(h); nx_graph_edge_list_free(nullptr); c.ev("edge_lists"); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"graph", graph, 4000, 80000}, {"big", big, 40, 800}, {"lists", lists, 2000, 40000}}); }

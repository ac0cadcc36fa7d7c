// bounded stand-in / replay for C10, C12, C13, C14, C16 on the real headers
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/forestindex.hpp>
#include <parmcb/util.hpp>
#include <parmcb/sptrees.hpp>
#include <parmcb/detail/cycles.hpp>
#include <parmcb/detail/fvs.hpp>
using namespace vrt;
typedef boost::property_map<GD, boost::edge_weight_t>::type WM;
typedef boost::property_map<GI, boost::edge_weight_t>::type WMI;
typedef Built<GD>::Edge Edge;
// ---------------------------------------------------------------- C16
template<class G> void c16(const Spec &s) {
    Built<G> b(s); typedef parmcb::ForestIndex<G> FI; FI f0(b.g); int m = s.e.size(), c = components(s), d = dim(s);
    auto ck = [&](const FI &f, const std::string &who) {
        VRT_CHECK((int)f.weak_connected_components() == c, who + "weak_connected_components() = " + std::to_string(f.weak_connected_components()) + ", graph has " + std::to_string(c));
        VRT_CHECK((long)f.cycle_space_dimension() == d, who + "cycle_space_dimension() = " + std::to_string(f.cycle_space_dimension()) + ", should be " + std::to_string(d));
        std::set<size_t> seen; Dsu t(s.n);
        for (int i = 0; i < m; i++) { size_t x = f(b.ed[i]); VRT_CHECK(x < (size_t)m && seen.insert(x).second, who + "edge->index is not a bijection onto 0..m-1"); VRT_CHECK(b.idx(f(x)) == i, who + "index->edge is not the inverse of edge->index");
            VRT_CHECK(f.is_on_forest(b.ed[i]) == (x >= (size_t)d), who + "is_on_forest disagrees with index >= dimension"); if (x >= (size_t)d) VRT_CHECK(t.join(s.e[i].u, s.e[i].v), who + "forest edges contain a cycle"); }
        for (int i = 0; i < m; i++) { auto e = f((size_t)i); VRT_CHECK(b.idx(e) >= 0 && f(e) == (size_t)i, who + "edge->index is not the inverse of index->edge"); }
        int cc = s.n; Dsu t2(s.n); for (int i = d; i < m; i++) { int e = b.idx(f((size_t)i)); if (t2.join(s.e[e].u, s.e[e].v)) cc--; } VRT_CHECK(cc == c, who + "forest edges do not span every component");
    };
    ck(f0, "ForestIndex: "); FI f1(f0); ck(f1, "copied ForestIndex: "); G e(0); FI f2(e); f2 = f0; ck(f2, "assigned ForestIndex: "); ck(f0, "ForestIndex after copies: ");
}
// ---------------------------------------------------------------- C13
template<class G> void c13(const Spec &s) {
    Built<G> b(s); std::vector<size_t> out; parmcb::greedy_fvs(b.g, std::back_inserter(out)); std::set<size_t> S;
    for (auto v : out) { VRT_CHECK(v < (size_t)s.n, "greedy_fvs emits something that is not a vertex"); VRT_CHECK(S.insert(v).second, "greedy_fvs emits vertex " + std::to_string(v) + " twice"); }
    Dsu d(s.n); for (auto &e : s.e) if (!S.count(e.u) && !S.count(e.v)) VRT_CHECK(d.join(e.u, e.v), "deleting the vertices emitted by greedy_fvs leaves a cycle");
    if (dim(s) == 0) VRT_CHECK(out.empty(), "greedy_fvs emits vertices for a forest");
}
// ---------------------------------------------------------------- C12
template<class G, class W> void c12(const Spec &s, const char *ty) {
    Built<G> b(s); W w = boost::get(boost::edge_weight, b.g); typedef parmcb::SPTree<G, W> T; std::vector<std::unique_ptr<T>> t; auto im = boost::get(boost::vertex_index, b.g);
    for (int v = 0; v < s.n; v++) t.emplace_back(new T(v, b.g, im, w, v));
    std::vector<std::vector<std::vector<int>>> path(s.n, std::vector<std::vector<int>>(s.n)); // vertex sequences
    for (int r = 0; r < s.n; r++) { auto d = sssp(s, r, INF); std::string who = std::string("SPTree<") + ty + "> rooted at " + std::to_string(r) + ": ";
        VRT_CHECK((int)t[r]->source() == r, who + "source()");
        for (int v = 0; v < s.n; v++) { auto nd = t[r]->node(v);
            if (d[v] >= INF) { VRT_CHECK(nd == nullptr, who + "unreachable vertex has a node"); continue; }
            VRT_CHECK(nd != nullptr, who + "reachable vertex " + std::to_string(v) + " has no node"); VRT_CHECK(wI(nd->weight()) == d[v], who + "node(" + std::to_string(v) + ")->weight() = " + fI(wI(nd->weight())) + " but the distance is " + fI(d[v])); VRT_CHECK((int)nd->vertex() == v, who + "node vertex");
            VRT_CHECK(nd->has_pred() == (v != r), who + "has_pred");
            std::vector<int> p; int x = v; I len = 0; p.push_back(x); while (x != r) { auto nx = t[r]->node(x); VRT_CHECK(nx && nx->has_pred(), who + "root path breaks off"); int e = b.idx(nx->pred()); VRT_CHECK(e >= 0 && (s.e[e].u == x || s.e[e].v == x), who + "predecessor edge is not incident"); len += toI(s.e[e].w); x = s.e[e].u == x ? s.e[e].v : s.e[e].u; p.push_back(x); VRT_CHECK((int)p.size() <= s.n, who + "predecessor edges contain a cycle"); }
            VRT_CHECK(len == d[v], who + "root path of " + std::to_string(v) + " has length " + fI(len) + " not the distance"); std::reverse(p.begin(), p.end()); path[r][v] = p;
            int fst = p.size() > 1 ? p[1] : r; VRT_CHECK((int)t[r]->first(v) == fst, who + "first(" + std::to_string(v) + ") = " + std::to_string(t[r]->first(v)) + " but the path goes through " + std::to_string(fst));
            std::set<int> ch; for (auto &c : nd->children()) VRT_CHECK(ch.insert((int)c->vertex()).second, who + "child listed twice"); for (int c : ch) { auto cn = t[r]->node(c); VRT_CHECK(cn && cn->has_pred(), who + "child without predecessor"); } }
        for (int v = 0; v < s.n; v++) if (v != r && d[v] < INF) { int par = path[r][v][path[r][v].size() - 2]; bool f = false; for (auto &c : t[r]->node(par)->children()) if ((int)c->vertex() == v) f = true; VRT_CHECK(f, who + "vertex is not among the children of its parent"); } }
    for (int u = 0; u < s.n; u++) for (int v = 0; v < s.n; v++) { auto p = path[u][v]; auto q = path[v][u]; std::reverse(q.begin(), q.end()); VRT_CHECK(p == q, "tree path " + std::to_string(u) + "->" + std::to_string(v) + " is not the reverse of the tree path " + std::to_string(v) + "->" + std::to_string(u));
        for (size_t i = 0; i < p.size(); i++) for (size_t j = i; j < p.size(); j++) VRT_CHECK(path[p[i]][p[j]] == std::vector<int>(p.begin() + i, p.begin() + j + 1), "sub-path of the tree path " + std::to_string(u) + "->" + std::to_string(v) + " between " + std::to_string(p[i]) + " and " + std::to_string(p[j]) + " is not the chosen path"); }
}
// ---------------------------------------------------------------- C14
template<class G, class W, template<class, class> class B> void coll(const Spec &s, const Built<G> &b, W w, const std::string &who, std::vector<std::pair<I, std::vector<int>>> &cyc, std::set<std::pair<int, int>> &keys, std::set<std::vector<int>> &sets) {
    std::vector<parmcb::SPTree<G, W>> trees; std::vector<parmcb::CandidateCycle<G, W>> cycles; B<G, W> bld; bld(b.g, w, trees, cycles);
    for (size_t i = 0; i < trees.size(); i++) VRT_CHECK(trees[i].id() == i, who + "tree id is not its position");
    for (auto &c : cycles) { VRT_CHECK(c.tree() < trees.size(), who + "candidate refers to a tree that does not exist"); int root = trees[c.tree()].source(), e = b.idx(c.edge()); VRT_CHECK(e >= 0, who + "candidate edge");
        std::vector<int> es{e}; std::set<int> vs; bool meet = true; int ends[2] = {s.e[e].u, s.e[e].v};
        for (int k = 0; k < 2; k++) { int x = ends[k]; auto nd = trees[c.tree()].node(x); VRT_CHECK(nd != nullptr, who + "candidate end point not in the tree"); if (x != root && !vs.insert(x).second) meet = false; int st = 0; while (x != root) { auto nx = trees[c.tree()].node(x); VRT_CHECK(nx && nx->has_pred() && ++st <= s.n, who + "root path"); int pe = b.idx(nx->pred()); VRT_CHECK(pe != e, who + "candidate edge is a tree edge"); es.push_back(pe); x = s.e[pe].u == x ? s.e[pe].v : s.e[pe].u; if (x != root && !vs.insert(x).second) meet = false; } }
        std::string id = who + "candidate (root " + std::to_string(root) + ", edge " + std::to_string(ends[0]) + "-" + std::to_string(ends[1]) + ") "; VRT_CHECK(meet, id + "root paths meet outside the root"); VRT_CHECK(simple_cycle(s, es), id + "is not a simple cycle through the root"); I t = 0; for (int i : es) t += toI(s.e[i].w); VRT_CHECK(t == wI(c.weight()), id + "records weight " + fI(wI(c.weight())) + " but weighs " + fI(t)); std::sort(es.begin(), es.end()); keys.insert({root, e}); sets.insert(es); cyc.push_back({t, es}); }
}
inline void greedy(const Spec &s, std::vector<std::pair<I, std::vector<int>>> cyc, const std::string &who, const std::pair<I, std::vector<I>> &o) {
    std::stable_sort(cyc.begin(), cyc.end(), [](const std::pair<I, std::vector<int>> &a, const std::pair<I, std::vector<int>> &b) { return a.first < b.first; }); Gauss g; I t = 0; int words = s.e.size() / 64 + 1; for (auto &c : cyc) { Bits x(words, 0); for (int i : c.second) bset(x, i); if (g.add(x)) t += c.first; }
    VRT_CHECK((int)g.rows.size() == dim(s), who + "collection has rank " + std::to_string(g.rows.size()) + " < dimension"); VRT_CHECK(t == o.first, who + "greedy choice from the collection weighs " + fI(t) + ", optimum " + fI(o.first));
}
template<class G, class W> void c14(const Spec &s) {
    Built<G> b(s); W w = boost::get(boost::edge_weight, b.g); auto o = mcb_opt(s); std::vector<std::pair<I, std::vector<int>>> ch, cf, ci; std::set<std::pair<int, int>> kh, kf, ki; std::set<std::vector<int>> sh, sf, si;
    coll<G, W, parmcb::detail::HortonCyclesBuilder>(s, b, w, "Horton: ", ch, kh, sh); coll<G, W, parmcb::detail::FVSCyclesBuilder>(s, b, w, "FVS: ", cf, kf, sf); coll<G, W, parmcb::detail::ISOCyclesBuilder>(s, b, w, "ISO: ", ci, ki, si);
    VRT_CHECK(kh.size() == ch.size() && kf.size() == cf.size() && ki.size() == ci.size(), "a (root, edge) pair occurs twice in a collection");
    for (auto &x : kf) VRT_CHECK(kh.count(x), "FVS collection is not a sub-collection of Horton's"); for (auto &x : ki) VRT_CHECK(kh.count(x), "isometric collection is not a sub-collection of Horton's");
    greedy(s, ch, "Horton: ", o); greedy(s, cf, "FVS: ", o); greedy(s, ci, "ISO: ", o);
}
// ---------------------------------------------------------------- C10
static bool raw_pred(const std::vector<E3> &e, int n, int which) { std::set<std::pair<int, int>> h; for (auto &x : e) { if (which == 0 && x.u == x.v) return true; if (which == 1 && !h.insert({std::min(x.u, x.v), std::max(x.u, x.v)}).second) return true; if (which == 2 && x.w <= 0) return true; } return false; }
template<class G> void preds(const std::vector<E3> &e, int n, const std::string &in) {
    Spec s; s.n = n; s.e = e; Built<G> b(s); current() = in.empty() ? s.str() : in; auto w = boost::get(boost::edge_weight, b.g);
    bool x = parmcb::has_loops(b.g); VRT_CHECK(x == raw_pred(e, n, 0), std::string("has_loops answers ") + (x ? "true" : "false")); x = parmcb::has_multiple_edges(b.g); VRT_CHECK(x == raw_pred(e, n, 1), std::string("has_multiple_edges answers ") + (x ? "true" : "false")); x = parmcb::has_non_positive_weights(b.g, w); VRT_CHECK(x == raw_pred(e, n, 2), std::string("has_non_positive_weights answers ") + (x ? "true" : "false"));
}
static std::string esc(const std::string &t) { std::string r; for (size_t i = 0; i < t.size();) { size_t j = i; while (j < t.size() && t[j] == t[i]) j++; if (j - i > 40) { r += std::string("<") + t[i] + " x" + std::to_string(j - i) + ">"; i = j; continue; } if (t[i] == '\n') r += "\\n"; else if (t[i] == '\t') r += "\\t"; else r += t[i]; i++; } return r; }
static void c10read(const std::string &text, int n, const std::vector<E3> &e, bool bad) {
    current() = "text=\"" + esc(text) + "\""; FILE *f = tmpfile(); fwrite(text.data(), 1, text.size(), f); rewind(f); GD g; bool thrown = false; try { parmcb::read_dimacs_from_file(f, g); } catch (const std::exception &) { thrown = true; } fclose(f);
    if (bad) { VRT_CHECK(thrown, "an edge naming an undeclared vertex raises no error"); return; } VRT_CHECK(!thrown, "reader raises an error on a valid file"); VRT_CHECK((int)boost::num_vertices(g) == n, "reader built " + std::to_string(boost::num_vertices(g)) + " vertices instead of " + std::to_string(n)); VRT_CHECK(boost::num_edges(g) == e.size(), "reader built " + std::to_string(boost::num_edges(g)) + " edges instead of " + std::to_string(e.size()));
    size_t i = 0; auto w = boost::get(boost::edge_weight, g); for (auto it = boost::edges(g); it.first != it.second; ++it.first, ++i) { auto x = *it.first; std::ostringstream o; o.precision(17); o << "edge #" << i << " is (" << boost::source(x, g) << "," << boost::target(x, g) << "," << w[x] << ") instead of (" << e[i].u << "," << e[i].v << "," << e[i].w << ")"; VRT_CHECK((int)boost::source(x, g) == e[i].u && (int)boost::target(x, g) == e[i].v && w[x] == e[i].w, o.str()); }
}
static void c10(Rng &r) {
    int n = r(0, 3) ? r(1, 12) : r(1, 2000); std::string t; std::vector<E3> e; bool bad = false; auto comment = [&] { int k = r(0, 5); std::string c(1, r(0, 3) ? 'c' : '#'); if (k == 0) return c + "\n"; if (k == 1) return c + std::string(r(1000, 1100), 'x') + "\n"; if (k == 2) return c + " p sp 3 3\n"; if (k == 3) return c + " e 1 2 3\n"; if (k == 4) return c + std::string(r(2030, 2070), 'a') + "\n"; return c + " hello\n"; };
    while (r(0, 2) == 0) t += comment(); int m = r(0, 3) ? r(0, 12) : r(0, 60); bool mkbad = r(0, 4) == 0; { static const char *nm[] = {"edge", "sp", "x", "graph"}; t += std::string("p ") + nm[r(0, 3)] + " " + std::to_string(n) + " " + std::to_string(m) + "\n"; }
    for (int i = 0; i < m; i++) { while (r(0, 5) == 0) t += comment(); int u = r(1, n), v = r(1, n); if (mkbad && r(0, 3) == 0) { int k = r(0, 3); int x = k == 0 ? 0 : k == 1 ? n + 1 : k == 2 ? -1 : n + r(1, 50); if (r(0, 1)) u = x; else v = x; bad = true; }
        char wb[64] = ""; double w = 1; switch (r(0, 6)) { case 0: break; case 1: w = r(1, 100); std::sprintf(wb, " %d", (int)w); break; case 2: w = r(-5, 5); std::sprintf(wb, " %d", (int)w); break; case 3: w = r(1, 1000) / 8.0; std::sprintf(wb, " %.17g", w); break; case 4: w = r.u() * 1000; std::sprintf(wb, " %.17g", w); break; case 5: w = r(0, 9) * 0.1; std::sprintf(wb, " %.1f", w); w = std::atof(wb); break; default: w = r(1, 9) * 1000; std::sprintf(wb, " %de3", (int)(w / 1000)); }
        const char *sp = r(0, 5) ? " " : (r(0, 1) ? "  " : "\t"); t += std::string(1, r(0, 1) ? 'e' : 'a') + sp + std::to_string(u) + sp + std::to_string(v) + wb; if (r(0, 9) == 0) t += " "; t += "\n"; e.push_back({u - 1, v - 1, w}); }
    while (r(0, 5) == 0) t += comment(); if (!t.empty() && r(0, 1)) t.pop_back();
    c10read(t, n, e, bad); Reporter::get().evals++; if (m) Reporter::get().nt(t); if (m) Reporter::get().sample(esc(t).substr(0, 200));
}
int main(int argc, char **argv) {
    Args a = parse(argc, argv); auto &R = Reporter::get();
    if (a.mode == "C16") run([](Spec s, Rng &) { c16<GD>(s); }, a);
    else if (a.mode == "C13") run([](Spec s, Rng &) { c13<GD>(s); }, a);
    else if (a.mode == "C12") run([](Spec s, Rng &r) { c12<GD, WM>(s, "double"); if (int_weights(s) && r(0, 2) == 0) c12<GI, WMI>(s, "int"); }, a);
    else if (a.mode == "C14") run([](Spec s, Rng &r) { c14<GD, WM>(s); if (int_weights(s) && r(0, 3) == 0) c14<GI, WMI>(s); }, a);
    else if (a.mode == "C10") {
        Rng r(a.seed * 131 + 3);
        for (int n = 0; n <= 3; n++) for (int k = 0; k < 4000 && n; k++) { int m = r(0, 4); std::vector<E3> e; for (int i = 0; i < m; i++) e.push_back({r(0, n - 1), r(0, n - 1), (double)r(-1, 3)}); preds<GD>(e, n, ""); preds<GI>(e, n, ""); R.evals++; if (m) R.nt(current()); }
        try { while (!R.out_of_time() && a.iters-- > 0) { tick(); for (int i = 0; i < 20; i++) c10(r); int n = r(1, 15), m = r(0, 20); std::vector<E3> e; bool simple = r(0, 1); std::set<std::pair<int, int>> h; for (int i = 0; i < m; i++) { int u = r(0, n - 1), v = r(0, n - 1); if (simple && (u == v || !h.insert({std::min(u, v), std::max(u, v)}).second)) continue; double w = r(0, 6) ? r(1, 8) * 0.125 : (r(0, 1) ? 0.0 : (r(0, 1) ? 1e-300 : -0.5)); e.push_back({u, v, w}); } preds<GD>(e, n, ""); R.evals++; if (m) R.nt(current()); } } catch (const Functional &) {}
    }
    return R.done();
}

// bounded stand-in / replay for C05, C06, C15 (approximate entry points, spanner)
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb_approx_sva_signed.hpp>
#include <parmcb/parmcb_approx_sva_trees.hpp>
using namespace vrt;
template<class G> using EL = std::list<std::list<typename boost::graph_traits<G>::edge_descriptor>>;
template<class G> auto call(int which, const Built<G> &b, std::size_t k, EL<G> &c) {
    auto wm = boost::get(boost::edge_weight, const_cast<G &>(b.g));
    switch (which) { case 0: return parmcb::approx_mcb_sva_signed(b.g, wm, k, std::back_inserter(c)); case 1: return parmcb::approx_mcb_sva_fvs_trees(b.g, wm, k, std::back_inserter(c)); default: return parmcb::approx_mcb_sva_iso_trees(b.g, wm, k, std::back_inserter(c)); }
}
static const char *NM[] = {"approx_mcb_sva_signed", "approx_mcb_sva_fvs_trees", "approx_mcb_sva_iso_trees"};
static std::size_t ks(Rng &r) { static const std::size_t K[] = {1, 1, 2, 2, 3, 4, 7, (std::size_t)1 << 63, ~(std::size_t)0}; return K[r(0, 8)]; }
template<class G> void one05(const Spec &s, Rng &r, const char *ty) { std::size_t k = ks(r);
    for (int v = 0; v < 3; v++) { Built<G> b(s); EL<G> c; auto w = call<G>(v, b, k, c); { std::vector<std::vector<char>> junk; for (int i = 0; i < 20; i++) junk.push_back(std::vector<char>(32 + 16 * i, 0x5a)); }
        std::string who = std::string(NM[v]) + "<" + ty + "> k=" + std::to_string(k); I t = check_basis(who, s, b, c); VRT_CHECK(wI(w) == t, who + ": returned weight " + fI(wI(w)) + " is not the weight " + fI(t) + " of the emitted cycles under the caller's weight map"); } }
template<class G> void one06(const Spec &s, Rng &r, I opt, const char *ty) {
    for (int v = 0; v < 3; v++) for (std::size_t k = 0; k <= 4; k++) { if (k == 4) k = 3 + ks(r) % 1000; Built<G> b(s); EL<G> c; bool thrown = false; I w = 0; std::string who = std::string(NM[v]) + "<" + ty + "> k=" + std::to_string(k);
        try { w = wI(call<G>(v, b, k, c)); } catch (const std::exception &) { thrown = true; } catch (...) { thrown = true; }
        if (k == 0) { VRT_CHECK(thrown, who + ": k = 0 is not rejected with an exception"); VRT_CHECK(c.empty(), who + ": k = 0 emits cycles"); continue; }
        VRT_CHECK(!thrown, who + ": unexpected exception");
        I t = 0; for (auto &cy : c) for (auto &e : cy) { int i = b.idx(e); VRT_CHECK(i >= 0, who + ": emitted edge is not an edge of the caller's graph"); t += toI(s.e[i].w); }
        VRT_CHECK((int)c.size() == dim(s), who + ": wrong number of cycles");
        VRT_CHECK(t <= opt * (I)(2 * k - 1), who + ": basis weight " + fI(t) + " exceeds (2k-1) times the optimum " + fI(opt)); if (k == 1) VRT_CHECK(t == opt, who + ": k = 1 must give the optimum " + fI(opt) + ", got " + fI(t)); (void)w; } }
// an "exact algorithm" that only observes the spanner it is handed: it emits every spanner edge as a
// one-edge list, so that the translation to the caller's edges can be read off the output
struct Seen { int n; std::vector<std::pair<int, int>> e; std::vector<double> w; int calls; }; static Seen seen;
template<class G> struct Spy { template<class WM, class Out> typename boost::property_traits<WM>::value_type operator()(const G &g, const WM &wm, Out out) {
        seen.calls++; seen.n = boost::num_vertices(g); seen.e.clear(); seen.w.clear(); auto p = boost::edges(g); for (auto it = p.first; it != p.second; ++it) { auto e = *it; seen.e.push_back({(int)boost::source(e, g), (int)boost::target(e, g)}); seen.w.push_back((double)boost::get(wm, e)); std::list<decltype(e)> l; l.push_back(e); *out++ = l; } return 0; } };
template<class G> void one15(const Spec &s, Rng &r, const char *ty) { std::size_t k = ks(r); Built<G> b(s); auto wm = boost::get(boost::edge_weight, b.g); typedef decltype(wm) WM; std::string who = std::string("spanner<") + ty + "> k=" + std::to_string(k);
    seen = Seen(); EL<G> out; { auto im = boost::get(boost::vertex_index, b.g); parmcb::detail::BaseApproxSpannerAlgorithm<G, WM, Spy<G>, false> algo(b.g, wm, im, k); algo.run(std::back_inserter(out)); }
    VRT_CHECK(seen.calls == 1, who + ": exact algorithm not called exactly once"); VRT_CHECK(seen.n == s.n, who + ": spanner has a different number of vertices"); VRT_CHECK(out.size() >= seen.e.size(), who + ": spanner edges lost in translation");
    std::vector<char> kept(s.e.size(), 0); std::vector<int> sp; auto it = out.begin(); for (size_t i = 0; i < seen.e.size(); i++, ++it) { VRT_CHECK(it->size() == 1, who + ": translation of a spanner edge"); int id = b.idx(it->front()); VRT_CHECK(id >= 0, who + ": spanner edge has no counterpart in the input graph"); VRT_CHECK(!kept[id], who + ": two spanner edges for one input edge"); kept[id] = 1; sp.push_back(id); VRT_CHECK(seen.w[i] == s.e[id].w, who + ": spanner edge weight differs from the input edge weight"); int a = seen.e[i].first, c = seen.e[i].second; VRT_CHECK((a == s.e[id].u && c == s.e[id].v) || (a == s.e[id].v && c == s.e[id].u), who + ": spanner edge end points"); }
    std::vector<char> drop(s.e.size(), 0); for (; it != out.end(); ++it) { int nd = -1; for (auto &e : *it) { int id = b.idx(e); VRT_CHECK(id >= 0, who + ": edge of another graph"); if (!kept[id]) { VRT_CHECK(nd < 0, who + ": cycle with two dropped edges"); nd = id; } } VRT_CHECK(nd >= 0 && !drop[nd], who + ": dropped edges"); drop[nd] = 1; }
    for (size_t i = 0; i < s.e.size(); i++) VRT_CHECK(kept[i] != drop[i], who + ": retained and dropped edges do not partition the edge set");
    I hops = k > (std::size_t)s.n ? s.n : (I)(2 * k - 1);
    auto bfs = [&](int from, int to, double maxw, int skip, I lim) { std::vector<int> d(s.n, -1); std::deque<int> q; q.push_back(from); d[from] = 0; while (!q.empty()) { int x = q.front(); q.pop_front(); if (x == to) return d[x] <= lim; for (int id : sp) { if (id == skip || s.e[id].w > maxw) continue; int y = s.e[id].u == x ? s.e[id].v : s.e[id].v == x ? s.e[id].u : -1; if (y >= 0 && d[y] < 0) { d[y] = d[x] + 1; q.push_back(y); } } } return false; };
    for (size_t i = 0; i < s.e.size(); i++) if (drop[i]) VRT_CHECK(bfs(s.e[i].u, s.e[i].v, s.e[i].w, -1, hops), who + ": dropped edge " + std::to_string(s.e[i].u) + "-" + std::to_string(s.e[i].v) + " has no path of at most 2k-1 retained edges none heavier than it");
    for (int id : sp) VRT_CHECK(!bfs(s.e[id].u, s.e[id].v, 1e300, id, hops), who + ": the spanner has a cycle of 2k or fewer edges"); }
int main(int argc, char **argv) { Args a = parse(argc, argv);
    if (a.mode == "C05") run([&](Spec s, Rng &r) { one05<GD>(s, r, "double"); if (int_weights(s) && r(0, 1)) one05<GI>(s, r, "int"); }, a);
    else if (a.mode == "C07") run([&](Spec s, Rng &r) { std::size_t k = ks(r); for (int v = 0; v < 3; v++) { Built<GD> b(s); EL<GD> c; auto wm = boost::get(boost::edge_weight, b.g); auto w = call<GD>(v, b, k, c); volatile double t = (double)w; std::size_t q = 0; for (auto &cy : c) for (auto &e : cy) { t = t + boost::get(wm, e); q += boost::source(e, b.g) + boost::target(e, b.g); } volatile std::size_t z = q; (void)z; } }, a);
    else if (a.mode == "C06") run([&](Spec s, Rng &r) { I o = mcb_opt(s).first; one06<GD>(s, r, o, "double"); if (int_weights(s) && !r(0, 2)) one06<GI>(s, r, o, "int"); }, a);
    else if (a.mode == "C15") run([&](Spec s, Rng &r) { for (int i = 0; i < 3; i++) one15<GD>(s, r, "double"); if (int_weights(s)) one15<GI>(s, r, "int"); }, a);
    return Reporter::get().done(); }

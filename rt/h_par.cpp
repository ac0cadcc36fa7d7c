// bounded stand-in / replay for C03: parallel entry points under the controllable scheduler
// (faketbb/) -- sequential random schedules, or std::threads under ThreadSanitizer (VRT_THREADS)
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
using namespace vrt;
#ifndef VRT_FAKETBB
namespace vrt_tbb { inline void reseed(uint64_t) {} }
#endif
template<class G> using EL = std::list<std::list<typename boost::graph_traits<G>::edge_descriptor>>;
static const char *NM[] = {"mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb", "approx_mcb_sva_signed_tbb", "approx_mcb_sva_fvs_trees_tbb", "approx_mcb_sva_iso_trees_tbb"};
template<class G> auto call(int which, const Built<G> &b, std::size_t k, EL<G> &c) { auto wm = boost::get(boost::edge_weight, const_cast<G &>(b.g));
    switch (which) { case 0: return parmcb::mcb_sva_signed_tbb(b.g, wm, std::back_inserter(c)); case 1: return parmcb::mcb_sva_fvs_trees_tbb(b.g, wm, std::back_inserter(c)); case 2: return parmcb::mcb_sva_iso_trees_tbb(b.g, wm, std::back_inserter(c));
    case 3: return parmcb::approx_mcb_sva_signed_tbb(b.g, wm, k, std::back_inserter(c)); case 4: return parmcb::approx_mcb_sva_fvs_trees_tbb(b.g, wm, k, std::back_inserter(c)); default: return parmcb::approx_mcb_sva_iso_trees_tbb(b.g, wm, k, std::back_inserter(c)); } }
template<class G> void one(const Spec &s, Rng &r, const std::pair<I, std::vector<I>> &o, int reps, const char *ty) {
    for (int v = 0; v < 6; v++) for (int rep = 0; rep < reps; rep++) { std::size_t k = v < 3 ? 1 : r(1, 4); uint64_t sd = r.r(); vrt_tbb::reseed(sd); Built<G> b(s); EL<G> c; auto w = call<G>(v, b, k, c); std::string who = std::string(NM[v]) + "<" + ty + ">" + (v < 3 ? "" : " k=" + std::to_string(k)) + " schedule " + std::to_string(sd); I t = check_basis(who, s, b, c); VRT_CHECK(wI(w) == t, who + ": returned weight " + fI(wI(w)) + " is not the emitted weight " + fI(t)); if (v < 3) { VRT_CHECK(t == o.first, who + ": weight " + fI(t) + " but the minimum is " + fI(o.first)); } else VRT_CHECK(t <= o.first * (I)(2 * k - 1), who + ": weight " + fI(t) + " exceeds (2k-1) times the optimum"); } }
int main(int argc, char **argv) { Args a = parse(argc, argv); 
    if (a.mode == "C07") { run([&](Spec s, Rng &r) { for (int v = 0; v < 6; v++) { vrt_tbb::reseed(r.r()); Built<GD> b(s); EL<GD> c; auto wm = boost::get(boost::edge_weight, b.g); volatile double t = call<GD>(v, b, r(1, 3), c); for (auto &cy : c) for (auto &e : cy) t = t + boost::get(wm, e); } }, a); return Reporter::get().done(); }
    int reps = a.mode == "C03T" ? 1 : 3; run([&](Spec s, Rng &r) { auto o = mcb_opt(s); one<GD>(s, r, o, a.replay.empty() ? reps : 200, "double"); if (int_weights(s) && r(0, 3) == 0) one<GI>(s, r, o, 1, "int"); }, a);
    return Reporter::get().done(); }

// bounded stand-in / replay for C01, C02, C08, C09 (exact sequential entry points) and,
// with -DVRT_TBB, C03 (parallel entry points under a controllable scheduler, see faketbb/)
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
using namespace vrt;
template<class G> struct Res { typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type w; std::list<std::list<typename boost::graph_traits<G>::edge_descriptor>> c; };
template<class G> Res<G> call(int which, const Built<G> &b) {
    Res<G> r; auto wm = boost::get(boost::edge_weight, const_cast<G &>(b.g));
    switch (which) { case 0: r.w = parmcb::mcb_sva_signed(b.g, wm, std::back_inserter(r.c)); break; case 1: r.w = parmcb::mcb_sva_fvs_trees(b.g, wm, std::back_inserter(r.c)); break; default: r.w = parmcb::mcb_sva_iso_trees(b.g, wm, std::back_inserter(r.c)); }
    return r;
}
static const char *NM[] = {"mcb_sva_signed", "mcb_sva_fvs_trees", "mcb_sva_iso_trees"};
template<class G> void one(const Spec &s, bool opt, const std::pair<I, std::vector<I>> &o, const char *ty) {
    for (int k = 0; k < 3; k++) { Built<G> b(s); Res<G> r = call<G>(k, b); std::string who = std::string(NM[k]) + "<" + ty + ">"; I t = check_basis(who, s, b, r.c);
        if (opt) { VRT_CHECK(wI(r.w) == t, who + ": returned weight " + fI(wI(r.w)) + " differs from the sum of emitted cycle weights " + fI(t)); VRT_CHECK(t == o.first, who + ": total weight " + fI(t) + " but the minimum is " + fI(o.first)); VRT_CHECK(cycle_weights(r.c, s, b) == o.second, who + ": sorted cycle weights differ from those of a minimum cycle basis"); } }
}
template<class G> I weight_of(int k, const Spec &s) { Built<G> b(s); return wI(call<G>(k, b).w); }
int main(int argc, char **argv) {
    Args a = parse(argc, argv);
    if (a.mode == "C01" || a.mode == "C02") { bool opt = a.mode == "C02"; run([&](Spec s, Rng &r) { std::pair<I, std::vector<I>> o; if (opt) o = mcb_opt(s); one<GD>(s, opt, o, "double"); if (int_weights(s) && r(0, 1)) one<GI>(s, opt, o, "int"); }, a); }
    else if (a.mode == "C07") run([&](Spec s, Rng &r) { for (int v = 0; v < 3; v++) { Built<GD> b(s); auto x = call<GD>(v, b); auto wm = boost::get(boost::edge_weight, b.g); volatile double t = (double)x.w; for (auto &cy : x.c) for (auto &e : cy) t = t + boost::get(wm, e); if (int_weights(s)) { Built<GI> bi(s); auto y = call<GI>(v, bi); volatile int z = y.w; (void)z; } } (void)r; }, a);
    else if (a.mode == "C08") run([&](Spec s, Rng &r) {
        I base = weight_of<GD>(0, s); auto ck = [&](const char *what, const Spec &t, I expect) { for (int k = 0; k < 3; k++) { I w = weight_of<GD>(k, t); if (w != expect) Reporter::get().fail(std::string(what) + " changes the optimum reported by " + NM[k] + ": " + fI(w) + " instead of " + fI(expect), current() + " transformed: " + t.str()); } };
        ck("choice of variant", s, base); ck("renumbering vertices / edge order", permute(s, r), base);
        Spec t = s; t.n += r(1, 2); int k = r(0, 3); for (int i = 0; i < k; i++) { t.e.push_back({r(0, t.n - 1), t.n, (double)r(1, 9)}); t.n++; } ck("isolated vertices and pendant trees", permute(t, r), base);
        if (s.n > 0) { Spec u = uni(s, s); u.e.push_back({r(0, s.n - 1), s.n + r(0, s.n - 1), (double)r(1, 5)}); ck("disjoint union joined by a bridge (additivity)", permute(u, r), base * 2); ck("disjoint union (additivity)", uni(s, s), base * 2); }
        if (!s.e.empty()) { Spec v = s; int j = r(0, (int)v.e.size() - 1); E3 e = v.e[j]; v.e[j] = {e.u, v.n, e.w / 2}; v.e.push_back({v.n, e.v, e.w / 2}); v.n++; ck("subdividing an edge", v, base); v = s; for (auto &x : v.e) x.w *= 8; ck("scaling by 8", v, base * 8); v = s; for (auto &x : v.e) x.w /= 4; ck("scaling by 1/4", v, base / 4); }
    }, a);
    else if (a.mode == "C09") run([&](Spec s, Rng &r) {
        int m = r(0, 3); for (auto &e : s.e) switch (m) { case 0: e.w = 0.1 * r(1, 9); break; case 1: e.w = 0.001 + r.u() * 999; break; case 2: e.w = r(1, 30) / 10.0; break; default: e.w = 0.1 + 0.2 * r(0, 2); } current() = s.str();
        auto o = mcb_opt(s); for (int k = 0; k < 3; k++) { Built<GD> b(s); Res<GD> x = call<GD>(k, b); I t = check_basis(NM[k], s, b, x.c); double ti = std::ldexp((double)t, -63), oi = std::ldexp((double)o.first, -63); VRT_CHECK(std::fabs(x.w - ti) <= 1e-9 * (1 + ti), std::string(NM[k]) + ": returned weight is not the sum of emitted weights"); VRT_CHECK(ti <= oi * (1 + 1e-9), std::string(NM[k]) + ": weight " + fI(t) + " exceeds optimum " + fI(o.first) + " by more than 1e-9"); }
    }, a);
    return Reporter::get().done();
}

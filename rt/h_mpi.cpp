// bounded stand-in / replay for C04: MPI entry points with in-process ranks (fakempi/), a
// randomised allocator per rank (different memory layouts) and random TBB schedules (faketbb/)
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/mpi/parmcb.hpp>
using namespace vrt;
template<class G> using EL = std::list<std::list<typename boost::graph_traits<G>::edge_descriptor>>;
static const char *NM[] = {"mcb_sva_signed_mpi", "mcb_sva_fvs_trees_mpi", "mcb_sva_iso_trees_mpi", "mcb_sva_fvs_trees_tbb_mpi", "mcb_sva_iso_trees_tbb_mpi"};
template<class G> void one(const Spec &s, Rng &r, const std::pair<I, std::vector<I>> &o, int reps, const char *ty) {
    for (int v = 0; v < 5; v++) for (int rep = 0; rep < reps; rep++) { int P = r(0, 9) == 0 ? r(5, 12) : r(1, 4); if (s.n > 0 && r(0, 9) == 0) P = s.n + r(0, 3); uint64_t sd = r.r(); vrt_mpi::World W(P, sd); std::vector<std::string> err(P); std::string who = std::string(NM[v]) + "<" + ty + "> ranks=" + std::to_string(P) + " layout seed " + std::to_string(sd);
        std::vector<std::thread> th; for (int p = 0; p < P; p++) th.emplace_back([&, p] { vrt_alloc::enable(sd * 31 + p * 1000003 + 7); vrt_tbb::reseed(sd + 77 * p); boost::mpi::communicator w(&W, p);
            try { Built<G> b(s); EL<G> c; auto wm = boost::get(boost::edge_weight, b.g); auto out = std::back_inserter(c); decltype(parmcb::mcb_sva_signed_mpi(b.g, wm, out, w)) wt; switch (v) { case 0: wt = parmcb::mcb_sva_signed_mpi(b.g, wm, out, w); break; case 1: wt = parmcb::mcb_sva_fvs_trees_mpi(b.g, wm, out, w); break; case 2: wt = parmcb::mcb_sva_iso_trees_mpi(b.g, wm, out, w); break; case 3: wt = parmcb::mcb_sva_fvs_trees_tbb_mpi(b.g, wm, out, w); break; default: wt = parmcb::mcb_sva_iso_trees_tbb_mpi(b.g, wm, out, w); }
                w.finish();
                if (p == 0) { I t = check_basis(who, s, b, c); VRT_CHECK(wI(wt) == t, who + ": rank 0 returns weight " + fI(wI(wt)) + " but emits " + fI(t)); VRT_CHECK(t == o.first, who + ": rank 0 emits weight " + fI(t) + ", the minimum is " + fI(o.first)); } else VRT_CHECK(c.empty(), who + ": rank " + std::to_string(p) + " emits cycles"); }
            catch (const std::exception &e) { err[p] = e.what(); w.finish(); } });
        for (auto &t : th) t.join(); for (int p = 0; p < P; p++) VRT_CHECK(err[p].empty() || (W.broken && err[p] != W.why), who + ": rank " + std::to_string(p) + ": " + err[p]); VRT_CHECK(!W.broken, who + ": " + W.why); } }
int main(int argc, char **argv) { Args a = parse(argc, argv); 
    run([&](Spec s, Rng &r) { auto o = mcb_opt(s); one<GD>(s, r, o, a.replay.empty() ? 1 : 60, "double"); if (int_weights(s) && r(0, 3) == 0) one<GI>(s, r, o, 1, "int"); }, a);
    return Reporter::get().done(); }

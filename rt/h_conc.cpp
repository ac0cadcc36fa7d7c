// bounded check for C20.  With real oneTBB: active_value after every call, while nothing else is
// called and around library calls; with the stand-in (VRT_FAKETBB): the limit in force at every
// parallel construct the library executes.
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
using namespace vrt;
int main(int argc, char **argv) { Args a = parse(argc, argv); Rng r(a.seed * 17 + 1); auto &R = Reporter::get(); typedef oneapi::tbb::global_control GC; std::string log = "seq:"; int cur = -1;
    auto ck = [&](const char *when) { std::size_t v = GC::active_value(GC::max_allowed_parallelism); VRT_CHECK(cur < 0 || v == (std::size_t)cur, std::string("allowed parallelism is ") + std::to_string(v) + " instead of " + std::to_string(cur) + " " + when); };
    while (!R.out_of_time() && a.iters-- > 0) { tick(); if (log.size() > 400) log = "seq: ..."; int op = r(0, 3);
        if (op < 3) { cur = op == 0 && r(0, 1) ? cur < 0 ? 3 : cur : r(1, 12); log += " set_global_tbb_concurrency(" + std::to_string(cur) + ")"; current() = log; parmcb::set_global_tbb_concurrency(cur); ck("right after the call"); }
        else { Spec s = family(r, 9); log += " library call"; current() = log; Built<GD> b(s); std::list<std::list<Built<GD>::Edge>> c; auto wm = boost::get(boost::edge_weight, b.g); auto out = std::back_inserter(c);
#ifdef VRT_FAKETBB
            vrt_tbb::reseed(r.r()); vrt_tbb::sched().limits.clear();
#endif
            switch (r(0, 3)) { case 0: parmcb::mcb_sva_signed_tbb(b.g, wm, out); break; case 1: parmcb::mcb_sva_fvs_trees_tbb(b.g, wm, out); break; case 2: parmcb::mcb_sva_iso_trees_tbb(b.g, wm, out); break; default: parmcb::approx_mcb_sva_signed_tbb(b.g, wm, 2, out); }
#ifdef VRT_FAKETBB
            for (auto l : vrt_tbb::sched().limits) VRT_CHECK(cur < 0 || l == (std::size_t)cur, "a parallel construct ran under limit " + std::to_string(l) + " instead of " + std::to_string(cur));
#endif
            ck("after a library call"); }
        R.evals++; if (cur >= 0) R.nt(log); R.sample(log); }
    return R.done(); }

// C20 (demos): the demo's own source, compiled with main renamed and the TBB stand-in, run
// in-process over option combinations; the limit in force at every parallel construct is compared
// with --cores.  VRT_DEMO is the source file.
#include "common.hpp"
#include <tbb/tbb.h>
#define main demo_main
#include VRT_DEMO
#undef main
using namespace vrt;
int main(int argc, char **argv) { Args a = parse(argc, argv); Rng r(a.seed * 19 + 1); auto &R = Reporter::get(); char tmp[] = "/tmp/vrtdemoXXXXXX"; int fd = mkstemp(tmp); close(fd);
    std::size_t hw = std::thread::hardware_concurrency(), prev = 0; std::vector<std::string> bad;
    while (!R.out_of_time() && a.iters-- > 0) { tick(); Spec s; do s = family(r, 9); while (dim(s) == 0); { std::ofstream f(tmp); f << "p edge " << s.n << " " << s.e.size() << "\n"; for (auto &e : s.e) f << "e " << e.u + 1 << " " << e.v + 1 << " " << e.w << "\n"; }
        std::vector<std::string> o{"demo"}; std::size_t want = hw; bool par = true; if (r(0, 5)) { int c = r(0, 9); if ((std::size_t)c == prev) c = c == 9 ? 1 : c + 1; if (c == 0 && prev == hw) c = 1; o.push_back("--cores"); o.push_back(std::to_string(c)); want = c ? (std::size_t)c : hw; }
        int alg = r(0, 3); if (alg == 1) { o.push_back("--signed"); o.push_back("0"); o.push_back("--fvstrees"); o.push_back("1"); } else if (alg == 2) { o.push_back("--signed=0"); o.push_back("--isotrees=1"); } else if (alg == 3) o.push_back("--signed=1");
        if (r(0, 3) == 0) { o.push_back("--parallel=0"); par = false; } else if (r(0, 1)) o.push_back("-p1"); if (r(0, 1)) o.push_back("--verbose=1"); if (r(0, 2) == 0) o.push_back("--printcycles=1");
#ifdef VRT_APPROX
        if (r(0, 1)) { o.push_back("--k"); o.push_back(std::to_string(r(2, 4))); }
#endif
        std::shuffle(o.begin() + 1, o.begin() + 1, r.r); o.push_back(tmp); std::string log; for (auto &x : o) log += x + " "; current() = log; std::vector<char *> av; for (auto &x : o) av.push_back(&x[0]); av.push_back(nullptr);
        vrt_tbb::reseed(r.r()); vrt_tbb::sched().limits.clear(); std::stringstream sink; auto *ob = std::cout.rdbuf(sink.rdbuf()); auto *eb = std::cerr.rdbuf(sink.rdbuf()); int rc = demo_main((int)av.size() - 1, av.data()); std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
        VRT_CHECK(rc == 0, "demo exits with status " + std::to_string(rc)); if (par) { VRT_CHECK(!vrt_tbb::sched().limits.empty(), "a parallel algorithm was selected but no parallel construct ran"); for (auto l : vrt_tbb::sched().limits) VRT_CHECK(l == want, "a parallel construct ran under limit " + std::to_string(l) + " instead of " + std::to_string(want)); prev = want; R.nt(current()); } R.evals++; R.sample(log); }
    unlink(tmp); return R.done(); }

// C11, MPI demo: the demo's own source, compiled with main renamed, run in-process on P ranks
// (threads) over the Boost.MPI stand-in, on valid and invalid DIMACS files.
#include "common.hpp"
#include <thread>
#include <boost/program_options.hpp>
#include <boost/timer/timer.hpp>
#include <boost/thread.hpp>
#include <boost/format.hpp>
#include <parmcb/config.hpp>
#include <parmcb/mpi/parmcb.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
struct VrtExit { int rc; };
#define main demo_main
#define exit(x) throw VrtExit{x}
#include VRT_DEMO
#undef exit
#undef main
namespace vrt {
struct TBuf : std::streambuf { static std::string &s(int k) { static thread_local std::string t[2]; return t[k]; } int k; TBuf(int k) : k(k) {} int overflow(int c) override { if (c != EOF) s(k).push_back((char)c); return c; } std::streamsize xsputn(const char *p, std::streamsize n) override { s(k).append(p, n); return n; } };
}
using namespace vrt;
int main(int argc, char **argv) { Args a = parse(argc, argv); Rng r(a.seed * 23 + 5); auto &R = Reporter::get(); char tmp[] = "/tmp/vrtmpiXXXXXX"; int fd = mkstemp(tmp); close(fd); int real_out = dup(1); (void)real_out;
    TBuf ob(0), eb(1); auto *oo = std::cout.rdbuf(), *oe = std::cerr.rdbuf();
    while (!R.out_of_time() && a.iters-- > 0) { tick(); Spec s = family(r, 9); bool loop = false, multi = false, nonpos = false; int kind = r(0, 7);
        if (kind == 1 && s.n) { loop = true; int u = r(0, s.n - 1); s.e.insert(s.e.begin() + r(0, (int)s.e.size()), {u, u, 1.0}); }
        if ((kind == 2 || kind == 5) && !s.e.empty()) { multi = true; auto e = s.e[r(0, (int)s.e.size() - 1)]; if (r(0, 1)) std::swap(e.u, e.v); e.w = r(1, 4); s.e.insert(s.e.begin() + r(0, (int)s.e.size()), e); }
        if ((kind == 3 || kind == 5) && !s.e.empty()) { nonpos = true; s.e[r(0, (int)s.e.size() - 1)].w = -r(0, 2) * 0.5; }
        bool bad = loop || multi || nonpos; { std::ofstream f(tmp); f.precision(17); f << "p edge " << s.n << " " << s.e.size() << "\n"; for (auto &e : s.e) f << "e " << e.u + 1 << " " << e.v + 1 << " " << e.w << "\n"; }
        int P = r(0, 9) ? r(1, 4) : r(5, 9), alg = r(0, 2); std::vector<std::string> o{"demo"}; if (alg == 1) { o.push_back("--signed=0"); o.push_back("--fvstrees=1"); } else if (alg == 2) { o.push_back("--signed=0"); o.push_back("--isotrees=1"); } if (r(0, 3) == 0) o.push_back("--verbose=1"); if (r(0, 3) == 0) o.push_back("--printcycles=1"); o.push_back(tmp);
        std::string log = "ranks=" + std::to_string(P); for (auto &x : o) log += " " + x; log += " file: " + s.str(); current() = log; uint64_t sd = r.r(); vrt_mpi::World W(P, sd); std::vector<int> rc(P, -1); std::vector<std::string> out(P), err(P), ex(P);
        std::cout.rdbuf(&ob); std::cerr.rdbuf(&eb); std::vector<std::thread> th;
        for (int p = 0; p < P; p++) th.emplace_back([&, p] { vrt_alloc::enable(sd * 31 + p * 1000003 + 7); vrt_tbb::reseed(sd + 77 * p); vrt_mpi::here() = {&W, p}; std::vector<std::string> args = o; std::vector<char *> av; for (auto &x : args) av.push_back(&x[0]); av.push_back(nullptr); TBuf::s(0).clear(); TBuf::s(1).clear();
            try { rc[p] = demo_main((int)av.size() - 1, av.data()); } catch (const VrtExit &e) { rc[p] = e.rc; } catch (const std::exception &e) { ex[p] = e.what(); } boost::mpi::communicator(&W, p).finish(); out[p] = TBuf::s(0); err[p] = TBuf::s(1); });
        for (auto &t : th) t.join(); std::cout.rdbuf(oo); std::cerr.rdbuf(oe);
        VRT_CHECK(!W.broken, "MPI demo: " + W.why); for (int p = 0; p < P; p++) VRT_CHECK(ex[p].empty(), "MPI demo: rank " + std::to_string(p) + " throws " + ex[p]);
        if (bad) { bool diag = false; for (int p = 0; p < P; p++) { VRT_CHECK(rc[p] != 0, "MPI demo: rank " + std::to_string(p) + " exits with status 0 on an invalid graph"); if (!err[p].empty() || out[p].find("raph has ") != std::string::npos) diag = true; VRT_CHECK(out[p].find("MCB weight") == std::string::npos, "MPI demo: a weight is printed for an invalid graph"); } VRT_CHECK(diag, "MPI demo: no diagnostic for an invalid graph"); VRT_CHECK(W.collectives == 0 || true, ""); R.nt(log.substr(0, log.find(" /tmp")) + s.str()); }
        else { for (int p = 0; p < P; p++) VRT_CHECK(rc[p] == 0, "MPI demo: rank " + std::to_string(p) + " exits with status " + std::to_string(rc[p]) + " on a valid graph"); auto w = mcb_opt(s).first; std::ostringstream want; want << "MCB weight = " << (double)std::ldexp((long double)w, -63); VRT_CHECK(out[0].find(want.str() + "\n") != std::string::npos, "MPI demo: rank 0 does not print '" + want.str() + "'"); if (dim(s) > 0) R.nt(log.substr(0, log.find(" /tmp")) + s.str()); }
        R.evals++; R.sample(log); }
    unlink(tmp); return R.done(); }

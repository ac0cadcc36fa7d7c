// An in-process stand-in for the part of Boost.MPI the library uses: every rank is a thread,
// values travel through real boost::serialization archives, every collective is checked to be
// the same call with the same root on all ranks, and a rank that returns while another one waits
// inside a collective (deadlock) is reported.
#ifndef VRT_FAKEMPI
#define VRT_FAKEMPI
#include <vector>
#include <string>
#include <sstream>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <random>
#include <stdexcept>
#include <algorithm>
#include <functional>
#include <iterator>
#include <utility>
#include <boost/mpl/bool.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/list.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
namespace vrt_mpi {
struct World { int n; std::mutex m; std::condition_variable cv; int arrived = 0, finished = 0; long gen = 0; std::vector<std::string> op, in, out; bool broken = false; std::string why; std::mt19937_64 r; long collectives = 0;
    World(int n, uint64_t s) : n(n), op(n), in(n), out(n), r(s) {} };
inline std::pair<World *, int> &here() { static thread_local std::pair<World *, int> p(nullptr, 0); return p; }
struct Broken : std::runtime_error { Broken(const std::string &s) : std::runtime_error(s) {} };
}
namespace boost { namespace mpi {
struct any_ {}; const int any_source = -1, any_tag = -1;
template<class T> struct is_mpi_datatype : mpl::false_ {}; template<class T> struct is_mpi_builtin_datatype : mpl::false_ {}; template<class Op, class T> struct is_commutative : mpl::false_ {};
struct threading { enum level { single, funneled, serialized, multiple }; };
class environment { public: environment() {} environment(int &, char **&) {} environment(int &, char **&, threading::level) {} explicit environment(threading::level) {} static threading::level thread_level() { return threading::multiple; } static std::string processor_name() { return "vrt"; } static bool initialized() { return true; } static bool finalized() { return false; } static void abort(int c) { throw vrt_mpi::Broken("environment::abort(" + std::to_string(c) + ")"); } };
class communicator { public: vrt_mpi::World *w; int r; communicator(vrt_mpi::World *w, int r) : w(w), r(r) {} communicator() : w(vrt_mpi::here().first), r(vrt_mpi::here().second) {} int rank() const { return r; } int size() const { return w->n; } void barrier() const;
    // all ranks meet; the last one combines in[] into out[]
    std::string meet(const std::string &op, const std::string &in, const std::function<void(vrt_mpi::World &)> &combine) const { std::unique_lock<std::mutex> l(w->m); auto bad = [&](const std::string &s) { w->broken = true; if (w->why.empty()) w->why = s; w->cv.notify_all(); };
        if (w->broken) throw vrt_mpi::Broken(w->why); w->op[r] = op; w->in[r] = in; long g = w->gen; w->arrived++;
        if (w->finished > 0) { bad("rank " + std::to_string(r) + " is left inside " + op + " after another rank returned"); throw vrt_mpi::Broken(w->why); }
        if (w->arrived == w->n) { for (int i = 0; i < w->n; i++) if (w->op[i] != op) { bad("ranks disagree on the collective: rank " + std::to_string(r) + " calls " + op + ", rank " + std::to_string(i) + " calls " + w->op[i]); throw vrt_mpi::Broken(w->why); } w->collectives++; combine(*w); w->arrived = 0; w->gen++; w->cv.notify_all(); }
        else { bool ok = w->cv.wait_for(l, std::chrono::seconds(30), [&] { return w->gen != g || w->broken; }); if (!ok) bad("timeout inside " + op); if (w->gen == g) throw vrt_mpi::Broken(w->why); }
        return w->out[r]; }
    void finish() const { std::unique_lock<std::mutex> l(w->m); w->finished++; if (w->arrived > 0 && !w->broken) { w->broken = true; if (w->why.empty()) w->why = "rank " + std::to_string(r) + " returns while another rank is inside a collective"; } w->cv.notify_all(); } };
namespace d_vrt { template<class T> std::string ser(const T &t) { std::ostringstream o(std::ios::binary); { boost::archive::binary_oarchive a(o, boost::archive::no_header); a << t; } return o.str(); } template<class T> void de(const std::string &s, T &t) { std::istringstream i(s, std::ios::binary); boost::archive::binary_iarchive a(i, boost::archive::no_header); a >> t; }
template<class T, class Op> T tree(std::vector<T> &v, std::size_t lo, std::size_t hi, Op op, std::mt19937_64 &r) { if (hi - lo == 1) return v[lo]; std::size_t mid = lo + 1 + r() % (hi - lo - 1); T a = tree(v, lo, mid, op, r); T b = tree(v, mid, hi, op, r); T c = op(a, b); return c; } }
inline void communicator::barrier() const { meet("barrier", "", [](vrt_mpi::World &) {}); }
template<class T> void broadcast(const communicator &c, T &v, int root) { std::string s = c.meet("broadcast root=" + std::to_string(root), c.rank() == root ? d_vrt::ser(v) : "", [root](vrt_mpi::World &w) { for (auto &o : w.out) o = w.in[root]; }); if (c.rank() != root) d_vrt::de(s, v); }
template<class T> void broadcast(const communicator &c, const T &v, int root) { c.meet("broadcast root=" + std::to_string(root), d_vrt::ser(v), [root](vrt_mpi::World &w) { for (auto &o : w.out) o = w.in[root]; }); }
template<class T> void scatter(const communicator &c, const std::vector<T> &in, T &out, int root) { std::string s = c.meet("scatter root=" + std::to_string(root), c.rank() == root ? d_vrt::ser(in) : "", [root](vrt_mpi::World &w) { std::vector<T> v; d_vrt::de(w.in[root], v); if ((int)v.size() < w.n) { w.broken = true; w.why = "scatter with too few chunks"; v.resize(w.n); } for (int i = 0; i < w.n; i++) w.out[i] = d_vrt::ser(v[i]); }); d_vrt::de(s, out); }
template<class T> void scatter(const communicator &c, T &out, int root) { scatter(c, std::vector<T>(), out, root); }
template<class T> void gather(const communicator &c, const T &in, std::vector<T> &out, int root) { std::string s = c.meet("gather root=" + std::to_string(root), d_vrt::ser(in), [root](vrt_mpi::World &w) { std::vector<T> v(w.n); for (int i = 0; i < w.n; i++) d_vrt::de(w.in[i], v[i]); for (auto &o : w.out) o = d_vrt::ser(v); }); if (c.rank() == root) d_vrt::de(s, out); }
template<class T> void gather(const communicator &c, const T &in, int root) { std::vector<T> d; gather(c, in, d, root); }
template<class T> void all_gather(const communicator &c, const T &in, std::vector<T> &out) { std::string s = c.meet("all_gather", d_vrt::ser(in), [](vrt_mpi::World &w) { std::vector<T> v(w.n); for (int i = 0; i < w.n; i++) d_vrt::de(w.in[i], v[i]); for (auto &o : w.out) o = d_vrt::ser(v); }); d_vrt::de(s, out); }
template<class T, class Op> void red_(const communicator &c, const std::string &nm, const T &in, T &out, Op op, int root) { std::string s = c.meet(nm + " root=" + std::to_string(root), d_vrt::ser(in), [op](vrt_mpi::World &w) { std::vector<T> v(w.n); for (int i = 0; i < w.n; i++) d_vrt::de(w.in[i], v[i]); if (is_commutative<Op, T>::value) std::shuffle(v.begin(), v.end(), w.r); T t = d_vrt::tree(v, 0, v.size(), op, w.r); for (auto &o : w.out) o = d_vrt::ser(t); }); if (root < 0 || c.rank() == root) d_vrt::de(s, out); }
template<class T, class Op> void reduce(const communicator &c, const T &in, T &out, Op op, int root) { red_(c, "reduce", in, out, op, root); }
template<class T, class Op> void reduce(const communicator &c, const T &in, Op op, int root) { T d; red_(c, "reduce", in, d, op, root); }
template<class T, class Op> void all_reduce(const communicator &c, const T &in, T &out, Op op) { red_(c, "all_reduce", in, out, op, -1); }
template<class T, class Op> T all_reduce(const communicator &c, const T &in, Op op) { T o; red_(c, "all_reduce", in, o, op, -1); return o; }
class timer { public: double elapsed() const { return 0; } void restart() {} };
template<class T> struct minimum { const T &operator()(const T &a, const T &b) const { return b < a ? b : a; } }; template<class T> struct maximum { const T &operator()(const T &a, const T &b) const { return a < b ? b : a; } };
}}
#endif

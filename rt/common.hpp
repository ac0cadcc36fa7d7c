// Runtime side of the checks: graph generation, independent oracles and contract
// oracles.  Used (a) to replay a failed obligation as a concrete input against the
// real headers of /repo, (b) as the *bounded* stand-in for functions that are not in
// the deductive verifier's reach.  Nothing here is taken from /repo.
#ifndef VRT_COMMON_HPP
#define VRT_COMMON_HPP
#include <cstdio>
#include <csignal>
#include <unistd.h>
#include <atomic>
#include <exception>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <sstream>
#include <fstream>
#include <vector>
#include <list>
#include <set>
#include <map>
#include <deque>
#include <queue>
#include <stack>
#include <memory>
#include <iostream>
#include <algorithm>
#include <functional>
#include <random>
#include <limits>
#include <numeric>
#include <tuple>
#include <unordered_set>
#include <unordered_map>
#include <iterator>
#include <stdexcept>
#include <system_error>
#include <chrono>
#include <cassert>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>
#include <boost/property_map/function_property_map.hpp>

// ---------------------------------------------------------------- randomised allocator
// Edge descriptors are ordered by the address of their property, so container orders in the
// library depend on the allocator.  With VRT_SHUFFLE_NEW small blocks come back in random order.
#ifdef VRT_SHUFFLE_NEW
#include <new>
namespace vrt_alloc {
struct Pool { void *fr[64]; int n; };
struct St { uint64_t x; bool on; Pool p[17]; };
inline St &st() { static thread_local St s = { 88172645463325252ull, false, {} }; return s; }
inline uint64_t rnd() { uint64_t &x = st().x; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
inline void enable(uint64_t seed) { st().x = seed * 0x9E3779B97F4A7C15ull + 1; st().on = true; }
}
void *operator new(std::size_t n) {
    if (n == 0) n = 1;
    auto &s = vrt_alloc::st(); std::size_t c = (n + 15) / 16;
    void *r;
    if (c <= 16 && s.on) { auto &p = s.p[c]; while (p.n < 48) p.fr[p.n++] = std::malloc(c * 16); int i = vrt_alloc::rnd() % p.n; r = p.fr[i]; p.fr[i] = p.fr[--p.n]; }
    else r = std::malloc(c * 16);
    if (!r) throw std::bad_alloc(); return r;
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
#else
namespace vrt_alloc { inline void enable(uint64_t) {} }
#endif
namespace vrt {
typedef __int128 I;

struct E3 { int u, v; double w; };
struct Spec {
    int n = 0; std::vector<E3> e; std::string tag;
    std::string str() const {
        std::ostringstream o; o.precision(17); o << "n=" << n << " edges=[";
        for (size_t i = 0; i < e.size(); i++) o << (i ? " " : "") << e[i].u << "-" << e[i].v << ":" << e[i].w;
        o << "]"; return o.str();
    }
};

// ---------------------------------------------------------------- reporting
struct Functional {};
struct Reporter {
    std::string file; long evals = 0, nontrivial = 0; std::vector<std::string> samples;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    double budget = 60;
    bool failed = false;
    static Reporter &get() { static Reporter r; return r; }
    double el() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    bool out_of_time() const { return el() > budget; }
    std::unordered_set<uint64_t> seen;
    void nt(const std::string &key);   // a non-trivial case: counted once per distinct input
    void sample(const std::string &s) { if (samples.size() < 4) samples.push_back(s); }
    // first failing input wins: print it and stop
    [[noreturn]] void fail(const std::string &what, const std::string &input) {
#ifdef VRT_NOFAIL   // C07: only undefined behaviour counts, functional failures belong to other properties
        throw Functional();
#endif
        alarm(0);
        std::cout << "RT-FAIL what=" << what << "\nRT-INPUT " << input << std::endl;
        std::fflush(stdout); std::_Exit(3);
    }
    int done() {
        std::cout << "RT-OK evaluations=" << evals << " nontrivial=" << seen.size() << std::endl;
        if (const char *p = std::getenv("VRT_HASHES")) { std::ofstream f(p, std::ios::binary); for (auto h : seen) f.write((const char *)&h, 8); }
        for (auto &s : samples) std::cout << "RT-SAMPLE " << s << std::endl;
        return 0;
    }
};
inline std::string &current() { static std::string s; return s; }
inline void Reporter::nt(const std::string &key) { nontrivial++; uint64_t h = 1469598103934665603ull; for (unsigned char c : key) { h ^= c; h *= 1099511628211ull; } if (seen.size() < 1000000) seen.insert(h); }
// a crash, an unexpected exception or a non-terminating call is reported with the current input
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void dump_input(const char *what) { static std::atomic<bool> once{false}; if (once.exchange(true)) return; std::string t = std::string("RT-FAIL what=") + what + "\nRT-INPUT " + current() + "\n"; ssize_t r = write(1, t.data(), t.size()); (void)r; }
inline void on_sig(int s) { dump_input(s == SIGALRM ? "the call does not terminate (120 s)" : s == SIGABRT ? "abort / failed assertion" : s == SIGFPE ? "SIGFPE" : "SIGSEGV"); _exit(3); }
inline void on_term() { const char *w = "unexpected exception"; static std::string m; try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); } catch (const std::exception &e) { m = std::string("unexpected exception: ") + e.what(); w = m.c_str(); } catch (...) {} dump_input(w); _exit(3); }
inline void on_death() { dump_input("sanitizer report"); }
inline void install_handlers() { std::set_terminate(on_term); std::signal(SIGALRM, on_sig); std::signal(SIGABRT, on_sig);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    std::signal(SIGSEGV, on_sig); std::signal(SIGFPE, on_sig); std::signal(SIGBUS, on_sig);
#endif
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death); }
inline void tick() { alarm(120); }
inline unsigned long &cur_seed() { static unsigned long s = 1; return s; }
#define VRT_CHECK(cond, what) do { if (!(cond)) vrt::Reporter::get().fail(what, vrt::current()); } while (0)

// ---------------------------------------------------------------- rng
struct Rng { std::mt19937_64 r; Rng(uint64_t s) : r(s) {} int operator()(int lo, int hi) { return lo + (int)(r() % (uint64_t)(hi - lo + 1)); } double u() { return (r() >> 11) * (1.0 / 9007199254740992.0); } };

// ---------------------------------------------------------------- oracles
inline I toI(double w) { return (I)std::ldexp((long double)w, 63) ; }  // exact for w = a*2^-63..

struct Dsu { std::vector<int> p; Dsu(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int x) { return p[x] == x ? x : p[x] = f(p[x]); } bool join(int a, int b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
inline int components(const Spec &s) { Dsu d(s.n); int c = s.n; for (auto &e : s.e) if (d.join(e.u, e.v)) c--; return c; }
inline int dim(const Spec &s) { return (int)s.e.size() - s.n + components(s); }

typedef std::vector<uint64_t> Bits;
inline void bset(Bits &b, int i) { b[i >> 6] ^= (uint64_t)1 << (i & 63); }
inline bool bget(const Bits &b, int i) { return (b[i >> 6] >> (i & 63)) & 1; }
inline bool bdot(const Bits &a, const Bits &b) { uint64_t x = 0; for (size_t i = 0; i < a.size(); i++) x ^= a[i] & b[i]; return __builtin_parityll(x); }
inline void bxor(Bits &a, const Bits &b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; }
struct Gauss { // incremental GF(2) rank
    std::vector<Bits> rows; std::vector<int> piv;
    bool add(Bits b) { for (size_t i = 0; i < rows.size(); i++) if (bget(b, piv[i])) bxor(b, rows[i]);
        for (int i = 0; i < (int)b.size() * 64; i++) if (bget(b, i)) { rows.push_back(b); piv.push_back(i); return true; } return false; }
};

// is the edge-index set one simple cycle?
inline bool simple_cycle(const Spec &s, const std::vector<int> &c) {
    if (c.empty()) return false; std::map<int, int> deg; std::set<int> dist(c.begin(), c.end());
    if (dist.size() != c.size()) return false; Dsu d(s.n); int v = 0;
    for (int i : c) { if (i < 0 || i >= (int)s.e.size()) return false; if (++deg[s.e[i].u] == 1) v++; if (++deg[s.e[i].v] == 1) v++; }
    for (auto &p : deg) if (p.second != 2) return false;
    int joins = 0; for (int i : c) if (d.join(s.e[i].u, s.e[i].v)) joins++;
    return joins == v - 1 && (int)c.size() == v && v >= 3;
}
// single-source distances by Bellman-Ford (independent of any Dijkstra in the library)
inline std::vector<I> sssp(const Spec &s, int src, const I INF) {
    std::vector<I> d(s.n, INF); d[src] = 0; bool ch = true;
    while (ch) { ch = false; for (auto &e : s.e) { I w = toI(e.w); if (d[e.u] < INF && d[e.u] + w < d[e.v]) { d[e.v] = d[e.u] + w; ch = true; } if (d[e.v] < INF && d[e.v] + w < d[e.u]) { d[e.u] = d[e.v] + w; ch = true; } } }
    return d;
}
static const I INF = (I)1 << 120;
// minimum odd cycle weight w.r.t. S, with an edge set realising it (de Pina, all v, plain Dijkstra on 2n nodes)
inline std::pair<I, Bits> min_odd(const Spec &s, const std::vector<std::vector<std::pair<int, int>>> &adj, const Bits &S, int words) {
    I best = INF; Bits bc;
    int n = s.n;
    for (int v = 0; v < n; v++) {
        std::vector<I> d(2 * n, INF); std::vector<int> pe(2 * n, -1), pn(2 * n, -1);
        typedef std::pair<I, int> Q; std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q; d[v] = 0; q.push(Q(0, v));
        while (!q.empty()) { Q t = q.top(); q.pop(); if (t.first != d[t.second]) continue; if (t.first >= best) break; int x = t.second % n, lv = t.second / n; if (t.second == v + n) break;
            for (auto &a : adj[x]) { int nl = lv ^ (bget(S, a.second) ? 1 : 0), y = a.first + nl * n; I c = t.first + toI(s.e[a.second].w); if (c < d[y]) { d[y] = c; pe[y] = a.second; pn[y] = t.second; q.push(Q(c, y)); } } }
        if (d[v + n] < best) { best = d[v + n]; bc = Bits(words, 0); for (int y = v + n; y != v; y = pn[y]) bset(bc, pe[y]); }
    }
    return std::make_pair(best, bc);
}
// exact optimum, in units of 2^-63, plus the sorted multiset of cycle weights
inline std::pair<I, std::vector<I>> mcb_opt(const Spec &s) {
    int m = s.e.size(), words = m / 64 + 1; std::vector<std::vector<std::pair<int, int>>> adj(s.n);
    for (int i = 0; i < m; i++) { adj[s.e[i].u].push_back({s.e[i].v, i}); adj[s.e[i].v].push_back({s.e[i].u, i}); }
    Dsu d(s.n); std::vector<Bits> S; for (int i = 0; i < m; i++) if (!d.join(s.e[i].u, s.e[i].v)) { Bits b(words, 0); bset(b, i); S.push_back(b); }
    I tot = 0; std::vector<I> ws;
    for (size_t k = 0; k < S.size(); k++) {
        auto r = min_odd(s, adj, S[k], words); tot += r.first; ws.push_back(r.first);
        for (size_t l = k + 1; l < S.size(); l++) if (bdot(S[l], r.second)) bxor(S[l], S[k]);
    }
    std::sort(ws.begin(), ws.end()); return std::make_pair(tot, ws);
}

// ---------------------------------------------------------------- graph families
inline Spec path_like(int n) { Spec s; s.n = n; for (int i = 0; i + 1 < n; i++) s.e.push_back({i, i + 1, 1}); s.tag = "path"; return s; }
inline Spec complete(int n) { Spec s; s.n = n; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) s.e.push_back({i, j, 1}); s.tag = "complete"; return s; }
inline Spec grid(int a, int b) { Spec s; s.n = a * b; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { if (j + 1 < b) s.e.push_back({i * b + j, i * b + j + 1, 1}); if (i + 1 < a) s.e.push_back({i * b + j, (i + 1) * b + j, 1}); } s.tag = "grid"; return s; }
inline Spec cube(int d) { Spec s; s.n = 1 << d; for (int i = 0; i < s.n; i++) for (int k = 0; k < d; k++) if (!(i >> k & 1)) s.e.push_back({i, i | 1 << k, 1}); s.tag = "hypercube"; return s; }
inline Spec bip(int a, int b) { Spec s; s.n = a + b; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) s.e.push_back({i, a + j, 1}); s.tag = "bipartite"; return s; }
inline Spec cyc(int n) { Spec s = path_like(n); if (n > 2) s.e.push_back({n - 1, 0, 1}); s.tag = "cycle"; return s; }
inline Spec wheel(int n) { Spec s = cyc(n); s.n++; for (int i = 0; i < n; i++) s.e.push_back({n, i, 1}); s.tag = "wheel"; return s; }
inline Spec petersen() { Spec s; s.n = 10; for (int i = 0; i < 5; i++) { s.e.push_back({i, (i + 1) % 5, 1}); s.e.push_back({5 + i, 5 + (i + 2) % 5, 1}); s.e.push_back({i, i + 5, 1}); } s.tag = "petersen"; return s; }
inline Spec theta(Rng &r) { Spec s; s.n = 2; int k = r(2, 4); for (int i = 0; i < k; i++) { int len = r(i == 0 ? 1 : 2, 4), prev = 0; for (int j = 0; j + 1 < len; j++) { s.e.push_back({prev, s.n, 1}); prev = s.n++; } s.e.push_back({prev, 1, 1}); } s.tag = "theta"; return s; }
inline Spec rnd(Rng &r, int n, double p) { Spec s; s.n = n; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.u() < p) s.e.push_back({i, j, 1}); s.tag = "gnp"; return s; }
inline Spec tree(Rng &r, int n) { Spec s; s.n = n; for (int i = 1; i < n; i++) s.e.push_back({r(0, i - 1), i, 1}); s.tag = "tree"; return s; }
inline Spec cactus(Rng &r, int k) { Spec s; s.n = 1; for (int i = 0; i < k; i++) { int at = r(0, s.n - 1), len = r(3, 5), prev = at; for (int j = 0; j + 1 < len; j++) { s.e.push_back({prev, s.n, 1}); prev = s.n++; } s.e.push_back({prev, at, 1}); } s.tag = "cactus"; return s; }
inline Spec uni(const Spec &a, const Spec &b) { Spec s = a; for (auto e : b.e) s.e.push_back({e.u + a.n, e.v + a.n, e.w}); s.n = a.n + b.n; s.tag = a.tag + "+" + b.tag; return s; }
inline Spec permute(const Spec &a, Rng &r) { Spec s = a; std::vector<int> p(a.n); std::iota(p.begin(), p.end(), 0); std::shuffle(p.begin(), p.end(), r.r); for (auto &e : s.e) { e.u = p[e.u]; e.v = p[e.v]; if (r(0, 1)) std::swap(e.u, e.v); } std::shuffle(s.e.begin(), s.e.end(), r.r); return s; }
inline void weights(Spec &s, Rng &r, int mode) { // all exact: integers or dyadic
    for (auto &e : s.e) switch (mode) { case 0: e.w = 1; break; case 1: e.w = r(1, 2); break; case 2: e.w = r(1, 3); break; case 3: e.w = r(1, 10); break; case 4: e.w = r(1, 1000); break; case 5: e.w = r(1, 64) / 8.0; break; case 6: e.w = 1 << r(0, 6); break; case 8: e.w = r(0, 7) ? r(1, 4) : 4096; break; case 9: e.w = r(0, 9) ? r(1, 2) / 2.0 : 512; break; default: e.w = r(0, 3) ? 1 : r(5, 9); }
}
// many edges (v_i,u) next to light detours v_i-a_i-b_i-u, all v_i close to a hub x that has one heavy edge to u: whoever uses the heavy edge more than once leaves every approximation bound
inline Spec hub(Rng &r, int k) { Spec s; s.n = 2; double heavy = 1 << r(4, 12); s.e.push_back({0, 1, heavy}); for (int i = 0; i < k; i++) { int v = s.n++, len = r(2, 4), prev = v; double lw = r(1, 2); s.e.push_back({1, v, r(1, 3) / 4.0}); for (int j = 0; j + 1 < len; j++) { s.e.push_back({prev, s.n, lw}); prev = s.n++; } s.e.push_back({prev, 0, lw}); if (r(0, 4)) s.e.push_back({v, 0, lw + r(0, 1)}); } s.tag = "hub"; return s; }
inline Spec family(Rng &r, int maxn) {
    Spec s; switch (r(0, 14)) {
    case 14: s = hub(r, r(2, std::max(3, maxn / 3))); return permute(s, r);
    case 0: s = rnd(r, r(1, maxn), 0.15 + 0.3 * r.u()); break;
    case 1: s = rnd(r, r(3, maxn), 0.4 + 0.5 * r.u()); break;
    case 2: s = complete(r(3, std::min(maxn, 7))); break;
    case 3: s = grid(r(2, 4), r(2, std::max(2, maxn / 4))); break;
    case 4: s = cube(r(2, maxn >= 16 ? 4 : 3)); break;
    case 5: s = bip(r(2, 4), r(2, 4)); break;
    case 6: s = wheel(r(3, std::max(3, std::min(8, maxn - 1)))); break;
    case 7: s = petersen(); break;
    case 8: s = theta(r); break;
    case 9: s = cactus(r, r(1, 4)); break;
    case 10: s = tree(r, r(1, maxn)); break;
    case 11: s = uni(rnd(r, r(1, maxn / 2 + 1), 0.6), rnd(r, r(1, maxn / 2 + 1), 0.6)); break;
    case 12: { s = uni(cactus(r, 2), tree(r, r(1, 5))); Spec iso; iso.n = r(0, 2); s = uni(s, iso); break; }
    default: { s = tree(r, r(4, maxn)); int extra = r(1, 4); std::set<std::pair<int, int>> have; for (auto &e : s.e) have.insert({std::min(e.u, e.v), std::max(e.u, e.v)}); for (int i = 0; i < extra * 3 && extra; i++) { int a = r(0, s.n - 1), b = r(0, s.n - 1); if (a > b) std::swap(a, b); if (a != b && have.insert({a, b}).second) { s.e.push_back({a, b, 1}); extra--; } } s.tag = "tree+"; }
    }
    if (r(0, 3) == 0) { // pendant edges
        int k = r(1, 3); for (int i = 0; i < k && s.n > 0; i++) { s.e.push_back({r(0, s.n - 1), s.n, 1}); s.n++; } }
    weights(s, r, r(0, 9)); s = permute(s, r); return s;
}
// every labelled graph on n vertices (edge mask), unit or small weights
inline Spec masked(int n, unsigned long mask) { Spec s; s.n = n; int b = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, b++) if (mask >> b & 1) s.e.push_back({i, j, 1}); s.tag = "exhaustive"; return s; }

// drive f over: every labelled graph with n<=nex (unit weights + one random weighting each), then random families until budget/iters
template<class F> void drive(F f0, int nex, int maxn, long iters, uint64_t seed) {
    auto f = [&](const Spec &s, Rng &r) { tick(); try { f0(s, r); } catch (const Functional &) {} };
    Reporter &R = Reporter::get(); Rng r(seed * 7919 + 17);
    for (int n = 0; n <= nex; n++) { unsigned long M = 1ul << (n * (n - 1) / 2); for (unsigned long k = 0; k < M; k++) {
        Spec s = masked(n, k); current() = s.str(); f(s, r); R.evals++; if (dim(s) > 0) R.nt(current());
        weights(s, r, r(1, 7)); if (r(0, 1)) s = permute(s, r); current() = s.str(); f(s, r); R.evals++; if (dim(s) > 0) { R.nt(current()); if (R.evals % 97 == 0) R.sample(s.str()); }
        if (R.out_of_time()) return; } }
    for (long i = 0; i < iters && !R.out_of_time(); i++) { Spec s = family(r, maxn); current() = s.str(); f(s, r); R.evals++; if (dim(s) > 0) { R.nt(current()); if (i % 13 == 0) R.sample(s.tag + " " + s.str()); } }
}

// ---------------------------------------------------------------- boost side
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> GD;
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, int>> GI;
template<class G> struct Built {
    typedef typename boost::graph_traits<G>::edge_descriptor Edge; G g; std::vector<Edge> ed; std::map<const void *, int> id;
    explicit Built(const Spec &s) : g(s.n) { auto w = boost::get(boost::edge_weight, g); for (auto &e : s.e) { auto x = boost::add_edge(e.u, e.v, g).first; w[x] = (typename boost::property_traits<decltype(w)>::value_type)e.w; ed.push_back(x); } for (size_t i = 0; i < ed.size(); i++) id[ed[i].get_property()] = i; }
    Built(const Built &) = delete;
    int idx(const Edge &e) const { auto it = id.find(e.get_property()); return it == id.end() ? -1 : it->second; }
};
inline bool int_weights(const Spec &s) { for (auto &e : s.e) if (e.w != std::floor(e.w) || e.w > 1e6) return false; return true; }
template<class W> inline I wI(W w) { return toI((double)w); }

// contract of an exact/approximate entry point w.r.t. C01: genuine cycle basis of the caller's graph
template<class B, class Cycles> I check_basis(const std::string &who, const Spec &s, const B &b, const Cycles &cycles) {
    int d = dim(s); VRT_CHECK((int)cycles.size() == d, who + ": emitted " + std::to_string(cycles.size()) + " cycles, dimension is " + std::to_string(d));
    Gauss ga; int words = s.e.size() / 64 + 1; I tot = 0;
    for (auto &c : cycles) { std::vector<int> ix; for (auto &e : c) { int i = b.idx(e); VRT_CHECK(i >= 0, who + ": emitted edge is not an edge descriptor of the caller's graph"); ix.push_back(i); auto su = boost::source(e, b.g), tu = boost::target(e, b.g); VRT_CHECK(((int)su == s.e[i].u && (int)tu == s.e[i].v) || ((int)su == s.e[i].v && (int)tu == s.e[i].u), who + ": emitted edge descriptor has wrong end points"); tot += toI(s.e[i].w); }
        VRT_CHECK(simple_cycle(s, ix), who + ": an emitted cycle is not one simple cycle of distinct edges"); Bits bb(words, 0); for (int i : ix) bset(bb, i); VRT_CHECK(ga.add(bb), who + ": emitted cycles are linearly dependent over GF(2)"); }
    return tot;
}
template<class C, class B> std::vector<I> cycle_weights(const C &cycles, const Spec &s, const B &b) { std::vector<I> r; for (auto &c : cycles) { I t = 0; for (auto &e : c) t += toI(s.e[b.idx(e)].w); r.push_back(t); } std::sort(r.begin(), r.end()); return r; }
inline std::string fI(I x) { std::ostringstream o; o.precision(17); o << (double)std::ldexp((long double)x, -63); return o.str(); }

struct Args { uint64_t seed = 1; double budget = 60; long iters = 1000000; int nex = 4, maxn = 14; std::string mode, replay; };
// replay line: "n=4 edges=[0-1:1 ...]"
inline Spec parse_spec(const std::string &line) {
    Spec s; size_t p = line.find("n="); s.n = std::atoi(line.c_str() + p + 2); p = line.find('['); size_t q = line.find(']'); std::istringstream in(line.substr(p + 1, q - p - 1)); std::string t;
    while (in >> t) { int u, v; double w; if (std::sscanf(t.c_str(), "%d-%d:%lf", &u, &v, &w) == 3) s.e.push_back({u, v, w}); } s.tag = "replay"; return s;
}
inline Args parse(int argc, char **argv) { Args a; for (int i = 1; i < argc; i++) { std::string k = argv[i]; auto nx = [&] { return std::string(argv[++i]); }; if (k == "--seed") a.seed = std::stoull(nx()); else if (k == "--budget") a.budget = std::stod(nx()); else if (k == "--iters") a.iters = std::stol(nx()); else if (k == "--nex") a.nex = std::stoi(nx()); else if (k == "--maxn") a.maxn = std::stoi(nx()); else if (k == "--mode") a.mode = nx(); else if (k == "--replay") { std::ifstream f(nx()); std::string l; while (std::getline(f, l)) if (l.rfind("RT-INPUT ", 0) == 0) a.replay = l.substr(9); } } Reporter::get().budget = a.budget; vrt_alloc::enable(a.seed); install_handlers(); return a; }
template<class F> void run(F f, const Args &a) { if (!a.replay.empty()) { Spec s = parse_spec(a.replay); Rng r(a.seed); current() = s.str(); tick(); try { f(s, r); } catch (const Functional &) {} Reporter::get().evals++; return; } drive(f, a.nex, a.maxn, a.iters, a.seed); }
} // vrt
#endif

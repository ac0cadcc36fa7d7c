// bounded stand-in / replay for C17 (SpVecGF2) and C18 (fp, primes, SpVecFP) on the real headers
#include "common.hpp"
#include <parmcb/config.hpp>
#include <parmcb/arithmetic.hpp>
#include <parmcb/spvecgf2.hpp>
#include <parmcb/fp.hpp>
#include <parmcb/spvecfp.hpp>
using namespace vrt;
typedef parmcb::ptype Z;
// ---------------------------------------------------------------- C17
template<class U> std::string dstr(const std::set<U> &s) { std::ostringstream o; o << "{"; for (auto x : s) o << " " << x; o << " }"; return o.str(); }
template<class U> void eqv(const parmcb::SpVecGF2<U> &v, const std::set<U> &d, const std::string &what, const std::string &log) {
    std::vector<U> a(v.begin(), v.end()), b(d.begin(), d.end());
    if (a != b) { std::ostringstream o; for (auto x : a) o << " " << x; Reporter::get().fail(what + ": vector lists {" + o.str() + " } but the dense computation gives " + dstr(d), log); }
    if (v.size() != d.size()) Reporter::get().fail(what + ": size() = " + std::to_string(v.size()) + ", dense " + std::to_string(d.size()), log);
}
template<class U> std::set<U> sym(const std::set<U> &a, const std::set<U> &b) { std::set<U> r; std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end())); return r; }
template<class U> int par(const std::set<U> &a, const std::set<U> &b) { int c = 0; for (auto x : a) c ^= (int)b.count(x); return c; }
template<class U> void c17(Rng &r, int range, int steps, const char *ty) {
    typedef parmcb::SpVecGF2<U> V; const int K = 5; std::vector<V> v(K); std::vector<std::set<U>> d(K); std::string log = std::string("SpVecGF2<") + ty + "> seq:";
    bool big = r(0, 3) == 0; auto rv = [&]() -> U { if (big && r(0, 2) == 0) return std::numeric_limits<U>::max() - (U)r(0, 3); return (U)r(0, range); };
    for (int s = 0; s < steps; s++) {
        int i = r(0, K - 1), j = r(0, K - 1), k = r(0, K - 1), op = r(0, 12); std::ostringstream o;
        switch (op) {
        case 0: { U x = rv(); o << " v" << i << "=V(" << x << ")"; log += o.str(); current() = log; v[i] = V(x); d[i] = std::set<U>{x}; break; }
        case 1: { std::set<U> t; int c = r(0, 8); while (c-- > 0) t.insert(rv()); o << " v" << i << "=V(" << dstr(t) << ")"; log += o.str(); current() = log; v[i] = V(t); d[i] = t; break; }
        case 2: { o << " v" << i << "=v" << j << "+v" << k; log += o.str(); current() = log; auto t = sym(d[j], d[k]); v[i] = v[j] + v[k]; d[i] = t; break; }
        case 3: case 4: { o << " v" << i << "+=v" << j; log += o.str(); current() = log; auto t = sym(d[i], d[j]); v[i] += v[j]; d[i] = t; break; }
        case 5: { o << " v" << i << "=v" << j; log += o.str(); current() = log; v[i] = v[j]; d[i] = d[j]; break; }
        case 6: { o << " v" << i << "=copy(v" << j << ")"; log += o.str(); current() = log; V c(v[j]); v[i] = c; d[i] = d[j]; eqv(c, d[j], "copy construction", log); break; }
        case 7: { o << " v" << i << "=move(copy(v" << j << "))"; log += o.str(); current() = log; V c(v[j]); V m(std::move(c)); eqv(m, d[j], "move construction", log); v[i] = std::move(m); d[i] = d[j]; break; }
        case 8: { U x; if (d[i].empty()) x = rv(); else { x = *d[i].rbegin(); if (x >= std::numeric_limits<U>::max() - 4) break; x += (U)r(1, 4); } o << " v" << i << ".add(" << x << ")"; log += o.str(); current() = log; v[i].add(x); d[i].insert(x); break; }
        case 9: { o << " v" << i << ".clear()"; log += o.str(); current() = log; v[i].clear(); d[i].clear(); break; }
        case 10: { o << " v" << i << "=v" << i; log += o.str(); current() = log; V &al = v[i]; v[i] = al; break; }
        default: { std::set<U> t; int c = r(0, 8); while (c-- > 0) t.insert(rv()); int a = v[i] * t; if (a != par(d[i], t)) Reporter::get().fail("product with index set " + dstr(t) + " is " + std::to_string(a), log + " v" + std::to_string(i) + "*set"); } }
        eqv(v[i], d[i], "after" + o.str(), log);
        int a = v[i] * v[j]; if (a != par(d[i], d[j])) Reporter::get().fail("product " + dstr(d[i]) + " * " + dstr(d[j]) + " is " + std::to_string(a), log + " v" + std::to_string(i) + "*v" + std::to_string(j));
        V x = v[i] + v[j]; eqv(x, sym(d[i], d[j]), "sum " + dstr(d[i]) + " + " + dstr(d[j]), log); eqv(v[i], d[i], "operand of +", log); eqv(v[j], d[j], "operand of +", log);
        V w(v[k]); w += v[k]; eqv(w, std::set<U>(), "v + v", log);
        Reporter::get().evals++; if (!d[i].empty() && !d[j].empty()) Reporter::get().nt(dstr(d[i]) + "|" + dstr(d[j]));
    }
    Reporter::get().sample(log.substr(0, 300));
}
// exhaustive: all pairs of subsets of {0..N-1}
void c17_exh(int N) {
    typedef parmcb::SpVecGF2<size_t> V; std::vector<V> v; std::vector<std::set<size_t>> d;
    for (int m = 0; m < 1 << N; m++) { std::set<size_t> s; for (int i = 0; i < N; i++) if (m >> i & 1) s.insert(i); d.push_back(s); v.push_back(V(s)); eqv(v.back(), s, "construction from set", dstr(s)); }
    for (int a = 0; a < 1 << N; a++) for (int b = 0; b < 1 << N; b++) { auto in = "a=" + dstr(d[a]) + " b=" + dstr(d[b]); eqv(V(v[a] + v[b]), d[a ^ b], "a + b", in); V t(v[a]); t += v[b]; eqv(t, d[a ^ b], "a += b", in); int p = __builtin_parity(a & b); if (v[a] * v[b] != p) Reporter::get().fail("a * b wrong", in); if (v[a] * d[b] != p) Reporter::get().fail("a * set(b) wrong", in); Reporter::get().evals++; if (a & b) Reporter::get().nt(in); }
}
// ---------------------------------------------------------------- C18
template<class T> std::string ts(const T &x) { std::ostringstream o; o << x; return o.str(); }
Z zgcd(Z a, Z b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b != 0) { Z t = a % b; a = b; b = t; } return a; }
template<class T> void gcd1(const T &a0, const T &b0, const char *ty) {
    T a = a0, b = b0, x = T(77), y = T(-77); std::string in = std::string("ext_gcd<") + ty + ">(" + ts(a0) + ", " + ts(b0) + ")";
    current() = in; T g = parmcb::fp<T>::ext_gcd(a, b, x, y); Z G = zgcd(Z(a0), Z(b0));
    if (Z(g) != G) Reporter::get().fail("ext_gcd returns " + ts(g) + " instead of " + ts(G), in);
    if (Z(a) != Z(a0) || Z(b) != Z(b0)) Reporter::get().fail("ext_gcd changed its arguments", in);
    if (Z(a0) * Z(x) + Z(b0) * Z(y) != G) Reporter::get().fail("coefficients x=" + ts(x) + " y=" + ts(y) + " do not satisfy a*x+b*y=g", in);
    Reporter::get().evals++; if (G > 1) Reporter::get().nt(current());
}
template<class T> void inv1(const T &a0, const T &p0, const char *ty) {
    T a = a0, p = p0; std::string in = std::string("get_mult_inverse<") + ty + ">(" + ts(a0) + ", " + ts(p0) + ")"; current() = in;
    bool cop = zgcd(Z(a0), Z(p0)) == 1; bool thrown = false; T x = 0;
    try { x = parmcb::fp<T>::get_mult_inverse(a, p); } catch (const std::exception &) { thrown = true; }
    if (thrown == cop) Reporter::get().fail(cop ? "throws although gcd(a,p)=1" : "does not throw although gcd(a,p)>1", in);
    if (cop && (Z(a0) * Z(x) - 1) % Z(p0) != 0) Reporter::get().fail("returned " + ts(x) + " is not an inverse", in);
    Reporter::get().evals++; if (cop) Reporter::get().nt(current());
}
bool sieve_prime(long p) { for (long t = 2; t * t <= p; t++) if (p % t == 0) return false; return p >= 2; }
template<class T> void prime1(long p, const char *ty) { std::string in = std::string("is_prime<") + ty + ">(" + std::to_string(p) + ")"; current() = in; bool r = parmcb::primes<T>::is_prime(T(p)); if (r != sieve_prime(p)) Reporter::get().fail(std::string("is_prime answers ") + (r ? "true" : "false"), in); Reporter::get().evals++; if (r) Reporter::get().nt(current()); }
template<class P> void eqf(const parmcb::SpVecFP<P> &v, const std::map<size_t, Z> &d, const std::string &what, const std::string &log) {
    std::map<size_t, Z> nz; for (auto &x : d) if (x.second != 0) nz.insert(x); auto it = nz.begin(); bool ok = v.size() == nz.size(); for (auto vi = v.begin(); ok && vi != v.end(); ++vi, ++it) if (boost::get<0>(*vi) != it->first || Z(boost::get<1>(*vi)) != it->second) ok = false;
    if (!ok) { std::ostringstream o; o << what << ": vector lists "; for (auto vi = v.begin(); vi != v.end(); ++vi) o << "(" << boost::get<0>(*vi) << "," << boost::get<1>(*vi) << ")"; o << " but the dense computation gives "; for (auto &x : nz) o << "(" << x.first << "," << x.second << ")"; Reporter::get().fail(o.str(), log); }
}
template<class P> void c18v(Rng &r, const Z &p, int steps, const char *ty) {
    typedef parmcb::SpVecFP<P> V; const int K = 4; P pp = P(p); std::vector<V> v(K, V(pp)); typedef std::map<size_t, Z> D; std::vector<D> d(K); std::string log = std::string("SpVecFP<") + ty + "> p=" + ts(p) + " seq:";
    auto md = [&](Z x) { x %= p; if (x < 0) x += p; return x; };
    auto add = [&](const D &a, const D &b) { D c = a; for (auto &x : b) c[x.first] = md(c[x.first] + x.second); return c; };
    auto scal = [&](int mode) -> P { switch (mode) { case 0: return P(r(-5, 5)); case 1: return P(r(-1000000, 1000000)); case 2: return P(pp - 1); case 3: return P(pp * r(-2, 2)); case 4: return std::numeric_limits<P>::is_bounded ? std::numeric_limits<P>::max() : P(Z(1) << r(1, 200)); default: return std::numeric_limits<P>::is_bounded ? P(std::numeric_limits<P>::min() + 1) : P(-(Z(1) << r(1, 200)) + r(0, 9)); } };
    for (int s = 0; s < steps; s++) {
        int i = r(0, K - 1), j = r(0, K - 1), k = r(0, K - 1), op = r(0, 8); std::ostringstream o;
        switch (op) {
        case 0: case 1: { size_t x = r(0, 9); o << " v" << i << "=" << x; log += o.str(); current() = log; v[i] = x; d[i].clear(); d[i][x] = md(1); break; }
        case 2: { o << " v" << i << "=v" << j << "+v" << k; log += o.str(); current() = log; D t = add(d[j], d[k]); v[i] = v[j] + v[k]; d[i] = t; break; }
        case 3: case 4: { o << " v" << i << "+=v" << j; log += o.str(); current() = log; D t = add(d[i], d[j]); v[i] += v[j]; d[i] = t; break; }
        case 5: case 6: { P a = scal(r(0, 5)); o << " v" << i << "*=" << ts(a); log += o.str(); current() = log; v[i] *= a; for (auto &x : d[i]) x.second = md(x.second * Z(a)); break; }
        case 7: { o << " v" << i << "=v" << j; log += o.str(); current() = log; V c(v[j]); V m(std::move(c)); v[i] = m; d[i] = d[j]; break; }
        default: { P a = scal(r(0, 5)); o << " v" << i << "=v" << j << "*" << ts(a); log += o.str(); current() = log; D t = d[j]; for (auto &x : t) x.second = md(x.second * Z(a)); v[i] = v[j] * a; d[i] = t; } }
        eqf(v[i], d[i], "after" + o.str(), log);
        Z dot = 0; for (auto &x : d[i]) { auto it = d[j].find(x.first); if (it != d[j].end()) dot = md(dot + x.second * it->second); }
        P got = v[i] * v[j]; if (Z(got) != dot) Reporter::get().fail("dot product v" + std::to_string(i) + "*v" + std::to_string(j) + " is " + ts(got) + " instead of " + ts(dot), log);
        if (Z(v[i].prime()) != p) Reporter::get().fail("prime() changed", log);
        Reporter::get().evals++; if (d[i].size() > 1) Reporter::get().nt(current());
    }
    Reporter::get().sample(log.substr(0, 300));
}
int main(int argc, char **argv) {
    Args a = parse(argc, argv); Rng r(a.seed * 31 + 5); auto &R = Reporter::get(); tick(); try {
    if (a.mode == "C17") { c17_exh(6); while (!R.out_of_time() && a.iters-- > 0) { tick(); c17<size_t>(r, r(1, 20), r(1, 40), "size_t"); c17<int>(r, r(1, 60), r(1, 20), "int"); } }
    else if (a.mode == "C18") {
        for (int x = -40; x <= 40; x++) for (int y = -40; y <= 40; y++) { if (!x && !y) continue; gcd1<int>(x, y, "int"); gcd1<long>(x, y, "long"); gcd1<Z>(x, y, "cpp_int"); if (y > 0) { inv1<int>(x, y, "int"); inv1<Z>(x, y, "cpp_int"); } }
        for (long p = 2; p < 6000; p++) { prime1<int>(p, "int"); prime1<long>(p, "long"); if (p < 1500) prime1<Z>(p, "cpp_int"); }
        for (long p : {46337L, 46341L, 46349L, 65521L, 65537L}) { if (p * p <= 2147483647L) prime1<int>(p * p, "int"); prime1<long>(p * p, "long"); prime1<long>(p * p + 2, "long"); prime1<Z>(p * p, "cpp_int"); } for (int i = 0; i < 40; i++) prime1<int>(2147483647 - i, "int");
        for (long p : {999983L, 1000003L}) prime1<long>(p * p, "long");
        for (int p : {2, 3, 5, 7}) for (int i = 0; i < 60; i++) { c18v<int>(r, p, 20, "int"); c18v<Z>(r, p, 20, "cpp_int"); c18v<long>(r, p, 20, "long"); }
        int ext[] = {2147483647, 2147483646, -2147483647, 1, -1, 0, 46341, 1836311903, 1134903170, 2, 3}; for (int x : ext) for (int y : ext) { if (!x && !y) continue; gcd1<int>(x, y, "int"); if (y > 0) inv1<int>(x, y, "int"); }
        while (!R.out_of_time() && a.iters-- > 0) { tick();
            int b = r(1, 62); long x = (long)(r.r() >> (63 - b)), y = (long)(r.r() >> (63 - r(1, 62))); if (r(0, 1)) x = -x; if (r(0, 1)) y = -y; if (x || y) { gcd1<long>(x, y, "long"); gcd1<Z>(Z(x) * Z(r.r()), Z(y) * Z(r.r()) + (r(0, 1) ? 0 : 1), "cpp_int"); if (y > 0) { inv1<long>(x, y, "long"); } }
            { int c = r(1, 1000), u = (int)(r.r() % 2000000) - 1000000, w = (int)(r.r() % 2000000) - 1000000; if (u || w) { gcd1<int>(u * c, w * c, "int"); } if (w > 0) inv1<int>(u, w, "int"); }
            prime1<long>(r(2, 2000000), "long"); prime1<int>(r(2, 2000000), "int");
            static const int ps[] = {2, 3, 5, 7, 11, 13, 101, 251, 46337}; c18v<int>(r, ps[r(0, 8)], 25, "int"); static const long pl[] = {2, 3, 65537, 1000003, 2147483647}; c18v<long>(r, pl[r(0, 4)], 25, "long"); c18v<Z>(r, r(0, 1) ? Z(pl[r(0, 4)]) : (Z(1) << 127) - 1, 25, "cpp_int");
        }
    }
    } catch (const Functional &) {}
    return R.done();
}

// A controllable stand-in for the part of oneTBB the library uses.  Sequential mode: ranges are
// split at random, leaves run in random order, partial reductions are seeded either from the
// identity or from the running value of the neighbouring leaf, joins keep left/right order but
// use a random tree (everything the oneTBB specification allows).  With VRT_THREADS every leaf
// group runs in its own std::thread (for ThreadSanitizer).  The limit in force (global_control)
// is recorded at every parallel call.
#ifndef VRT_FAKETBB
#define VRT_FAKETBB
#define TBB_VERSION_MAJOR 2021
#define TBB_VERSION_MINOR 11
#define TBB_INTERFACE_VERSION 12110
#include <cstddef>
#include <cstdint>
#include <vector>
#include <atomic>
#include <mutex>
#include <thread>
#include <memory>
#include <set>
#include <map>
#include <functional>
#include <random>
#include <algorithm>
#include <utility>
#include <iterator>
#include <exception>
namespace vrt_tbb {
struct Sched { std::mt19937_64 r{1}; int style = 0; std::vector<std::size_t> limits; long calls = 0, leaves = 0; };
inline Sched &sched() { static thread_local Sched s; return s; }
inline void reseed(uint64_t s) { sched().r.seed(s); sched().style = (int)(s % 5); }
inline unsigned rnd(unsigned n) { return (unsigned)(sched().r() % n); }
inline std::multiset<std::size_t> &limits() { static auto *l = new std::multiset<std::size_t>(); return *l; }  // never destroyed: the library may hold a control in a static
inline std::mutex &mtx() { static auto *m = new std::mutex(); return *m; }
inline std::size_t active() { std::lock_guard<std::mutex> g(mtx()); std::size_t hw = std::thread::hardware_concurrency(); if (!hw) hw = 1; return limits().empty() ? hw : *limits().begin(); }
inline void called() { auto &s = sched(); s.calls++; s.limits.push_back(active()); }
inline int &depth() { static thread_local int d = 0; return d; }
// run the jobs in some order / concurrently
inline void run(std::vector<std::function<void()>> jobs) {
    sched().leaves += (long)jobs.size();
#ifdef VRT_THREADS
    if (jobs.size() > 1 && depth() < 2) {
        std::size_t nt = std::min<std::size_t>(jobs.size(), 2 + rnd(3)); std::vector<std::exception_ptr> ex(nt); std::vector<std::thread> th; uint64_t base = sched().r(); int d = depth();
        for (std::size_t t = 0; t < nt; t++) th.emplace_back([&, t] { reseed(base + t); depth() = d + 1; try { for (std::size_t i = t; i < jobs.size(); i += nt) jobs[i](); } catch (...) { ex[t] = std::current_exception(); } });
        for (auto &x : th) x.join(); for (auto &e : ex) if (e) std::rethrow_exception(e); return;
    }
#endif
    std::vector<std::size_t> o(jobs.size()); for (std::size_t i = 0; i < o.size(); i++) o[i] = i; int st = sched().style; if (st == 1) std::reverse(o.begin(), o.end()); else if (st != 0) std::shuffle(o.begin(), o.end(), sched().r); for (auto i : o) jobs[i]();
}
}
namespace oneapi { namespace tbb {
class split {}; class proportional_split {};
struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {}; struct affinity_partitioner {};
template<class T> class blocked_range {
public:
    typedef T const_iterator; typedef std::size_t size_type;
    blocked_range(T b, T e, size_type g = 1) : b_(b), e_(e), g_(g) {}
    blocked_range(blocked_range &r, split) : b_(r.b_ + (r.e_ - r.b_) / 2), e_(r.e_), g_(r.g_) { r.e_ = b_; }
    T begin() const { return b_; } T end() const { return e_; } size_type size() const { return size_type(e_ - b_); } size_type grainsize() const { return g_; } bool empty() const { return !(b_ < e_); } bool is_divisible() const { return g_ < size(); }
    void vrt_cut(size_type k, blocked_range &right) { right = *this; right.b_ = b_ + (std::ptrdiff_t)k; e_ = right.b_; }
private: T b_, e_; size_type g_;
};
namespace d_vrt {
template<class R> void leaves(R r, std::vector<R> &out, int st) {
    if (!r.is_divisible() || (st >= 3 && vrt_tbb::rnd(4) == 0) || (st == 2 && vrt_tbb::rnd(8) == 0) || (st == 4 && vrt_tbb::rnd(2) == 0)) { out.push_back(r); return; }
    R right(r, split()); leaves(r, out, st); leaves(right, out, st);
}
template<class R> std::vector<R> cut(const R &r) { std::vector<R> v; if (r.empty()) return v; int st = vrt_tbb::sched().style; if (vrt_tbb::rnd(7) == 0) { v.push_back(r); return v; } leaves(r, v, st); return v; }
template<class V, class J> V join_tree(std::vector<V> &v, std::size_t lo, std::size_t hi, const J &j) { if (hi - lo == 1) return v[lo]; std::size_t mid = lo + 1 + vrt_tbb::rnd((unsigned)(hi - lo - 1)); V a = join_tree(v, lo, mid, j); V b = join_tree(v, mid, hi, j); return j(a, b); }
}
template<class R, class B> void parallel_for(const R &range, const B &body) { vrt_tbb::called(); auto lv = d_vrt::cut(range); std::vector<std::function<void()>> js; for (auto &l : lv) js.push_back([l, &body] { R x(l); body(x); }); vrt_tbb::run(js); }
template<class R, class B> void parallel_for(const R &range, const B &body, const auto_partitioner &) { parallel_for(range, body); }
template<class R, class B> void parallel_for(const R &range, const B &body, const simple_partitioner &) { parallel_for(range, body); }
template<class R, class B> void parallel_for(const R &range, const B &body, const static_partitioner &) { parallel_for(range, body); }
template<class R, class B> void parallel_for(const R &range, const B &body, affinity_partitioner &) { parallel_for(range, body); }
template<class I, class F, class = typename std::enable_if<std::is_integral<I>::value>::type> void parallel_for(I a, I b, const F &f) { if (!(a < b)) return; parallel_for(blocked_range<I>(a, b), [&](const blocked_range<I> &r) { for (I i = r.begin(); i != r.end(); ++i) f(i); }); }
template<class It, class F> void parallel_for_each(It a, It b, const F &f) { vrt_tbb::called(); std::vector<std::function<void()>> js; for (; a != b; ++a) { It x = a; js.push_back([x, &f] { f(*x); }); } vrt_tbb::run(js); }
template<class C, class F> void parallel_for_each(C &c, const F &f) { parallel_for_each(std::begin(c), std::end(c), f); }
template<class F0, class F1, class... Fs> void parallel_invoke(const F0 &a, const F1 &b, const Fs &... fs) { vrt_tbb::called(); std::vector<std::function<void()>> js{std::function<void()>(a), std::function<void()>(b), std::function<void()>(fs)...}; vrt_tbb::run(js); }
template<class R, class V, class F, class J> V parallel_reduce(const R &range, const V &identity, const F &f, const J &join) {
    vrt_tbb::called(); auto lv = d_vrt::cut(range); if (lv.empty()) return identity;
    // groups of consecutive leaves share one running value
    std::vector<std::vector<R>> groups; for (auto &l : lv) { if (groups.empty() || vrt_tbb::rnd(3) != 0) groups.emplace_back(); groups.back().push_back(l); }
    std::vector<V> val(groups.size(), identity); std::vector<std::function<void()>> js; for (std::size_t i = 0; i < groups.size(); i++) js.push_back([i, &groups, &val, &f] { V v = val[i]; for (auto &l : groups[i]) { V t = f(l, const_cast<const V &>(v)); v = t; } val[i] = v; });
    vrt_tbb::run(js); if (vrt_tbb::rnd(2)) { std::size_t p = vrt_tbb::rnd((unsigned)val.size() + 1); val.insert(val.begin() + (std::ptrdiff_t)p, identity); } return d_vrt::join_tree(val, 0, val.size(), join);
}
template<class R, class V, class F, class J, class P> V parallel_reduce(const R &range, const V &identity, const F &f, const J &join, const P &) { return parallel_reduce(range, identity, f, join); }
template<class R, class V, class F, class J> V parallel_deterministic_reduce(const R &range, const V &identity, const F &f, const J &join) { return parallel_reduce(range, identity, f, join); }
template<class R, class B> void parallel_reduce(const R &range, B &body) { vrt_tbb::called(); auto lv = d_vrt::cut(range); bool first = true; for (auto &l : lv) { if (first || vrt_tbb::rnd(2)) { body(l); first = false; } else { B o(body, split()); o(l); body.join(o); } } }
template<class T, class A = std::allocator<T>> class concurrent_vector {
    static const int NS = 48; std::atomic<T *> seg_[NS]; std::atomic<std::size_t> size_{0}; mutable std::mutex m_;
    static int si(std::size_t i, std::size_t &off) { std::size_t b = 8, base = 0; int k = 0; while (i >= base + b) { base += b; b *= 2; k++; } off = i - base; return k; }
    T *slot(std::size_t i) const { std::size_t off; int k = si(i, off); return seg_[k].load() + off; }
    template<class... X> std::size_t put(X &&... x) { std::lock_guard<std::mutex> g(m_); std::size_t i = size_.load(), off; int k = si(i, off); if (!seg_[k].load()) seg_[k].store(static_cast<T *>(::operator new(sizeof(T) * ((std::size_t)8 << k)))); new (seg_[k].load() + off) T(std::forward<X>(x)...); size_.store(i + 1); return i; }
public:
    typedef T value_type; typedef std::size_t size_type; typedef T &reference; typedef const T &const_reference; typedef std::ptrdiff_t difference_type;
    template<class C, class U> class It { C *c_; std::size_t i_; public: typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef U *pointer; typedef U &reference; It() : c_(0), i_(0) {} It(C *c, std::size_t i) : c_(c), i_(i) {} template<class C2, class U2> It(const It<C2, U2> &o) : c_(o.vc()), i_(o.vi()) {} C *vc() const { return c_; } std::size_t vi() const { return i_; }
        reference operator*() const { return (*c_)[i_]; } pointer operator->() const { return &(*c_)[i_]; } It &operator++() { ++i_; return *this; } It operator++(int) { It t = *this; ++i_; return t; } It &operator--() { --i_; return *this; } It &operator+=(difference_type d) { i_ += d; return *this; } It operator+(difference_type d) const { return It(c_, i_ + d); } It operator-(difference_type d) const { return It(c_, i_ - d); } difference_type operator-(const It &o) const { return (difference_type)i_ - (difference_type)o.i_; } reference operator[](difference_type d) const { return (*c_)[i_ + d]; } bool operator==(const It &o) const { return i_ == o.i_; } bool operator!=(const It &o) const { return i_ != o.i_; } bool operator<(const It &o) const { return i_ < o.i_; } bool operator>(const It &o) const { return i_ > o.i_; } bool operator<=(const It &o) const { return i_ <= o.i_; } bool operator>=(const It &o) const { return i_ >= o.i_; } };
    typedef It<concurrent_vector, T> iterator; typedef It<const concurrent_vector, const T> const_iterator; 
    template<class I> struct grange : blocked_range<I> { typedef T value_type; typedef T &reference; typedef const T &const_reference; typedef I iterator; typedef std::ptrdiff_t difference_type; grange(I a, I b, std::size_t g = 1) : blocked_range<I>(a, b, g) {} grange(grange &r, split s) : blocked_range<I>(r, s) {} };
    typedef grange<iterator> range_type; typedef grange<const_iterator> const_range_type;
    concurrent_vector() { for (auto &s : seg_) s.store(0); }
    explicit concurrent_vector(std::size_t n) : concurrent_vector() { for (std::size_t i = 0; i < n; i++) put(); }
    concurrent_vector(std::size_t n, const T &t) : concurrent_vector() { for (std::size_t i = 0; i < n; i++) put(t); }
    concurrent_vector(const concurrent_vector &o) : concurrent_vector() { for (std::size_t i = 0; i < o.size(); i++) put(o[i]); }
    concurrent_vector &operator=(const concurrent_vector &o) { if (this != &o) { clear(); for (std::size_t i = 0; i < o.size(); i++) put(o[i]); } return *this; }
    ~concurrent_vector() { clear(); for (auto &s : seg_) ::operator delete(s.load()); }
    void clear() { std::size_t n = size_.load(); for (std::size_t i = 0; i < n; i++) slot(i)->~T(); size_.store(0); }
    iterator push_back(const T &t) { return iterator(this, put(t)); } iterator push_back(T &&t) { return iterator(this, put(std::move(t))); } template<class... X> iterator emplace_back(X &&... x) { return iterator(this, put(std::forward<X>(x)...)); }
    iterator grow_by(std::size_t n) { std::size_t f = 0; for (std::size_t i = 0; i < n; i++) { std::size_t j = put(); if (!i) f = j; } return iterator(this, n ? f : size()); } iterator grow_by(std::size_t n, const T &t) { std::size_t f = 0; for (std::size_t i = 0; i < n; i++) { std::size_t j = put(t); if (!i) f = j; } return iterator(this, n ? f : size()); } iterator grow_to_at_least(std::size_t n) { while (size() < n) put(); return begin(); } iterator grow_to_at_least(std::size_t n, const T &t) { while (size() < n) put(t); return begin(); }
    void reserve(std::size_t) {} void resize(std::size_t n) { while (size() < n) put(); } void resize(std::size_t n, const T &t) { while (size() < n) put(t); } std::size_t size() const { return size_.load(); } bool empty() const { return size() == 0; }
    T &operator[](std::size_t i) { return *slot(i); } const T &operator[](std::size_t i) const { return *slot(i); } T &at(std::size_t i) { if (i >= size()) throw std::out_of_range("concurrent_vector"); return *slot(i); } const T &at(std::size_t i) const { if (i >= size()) throw std::out_of_range("concurrent_vector"); return *slot(i); } T &front() { return *slot(0); } T &back() { return *slot(size() - 1); }
    iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, size()); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, size()); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); } range_type range(std::size_t g = 1) { return range_type(begin(), end(), g); } const_range_type range(std::size_t g = 1) const { return const_range_type(begin(), end(), g); }
};
template<class T> using cache_aligned_allocator = std::allocator<T>;
class spin_mutex { std::mutex m_; public: class scoped_lock { spin_mutex *p_; public: scoped_lock() : p_(0) {} explicit scoped_lock(spin_mutex &m) : p_(&m) { m.m_.lock(); } void acquire(spin_mutex &m) { p_ = &m; m.m_.lock(); } void release() { p_->m_.unlock(); p_ = 0; } ~scoped_lock() { if (p_) p_->m_.unlock(); } }; void lock() { m_.lock(); } void unlock() { m_.unlock(); } bool try_lock() { return m_.try_lock(); } };
typedef spin_mutex mutex; typedef spin_mutex queuing_mutex;
class task_group { std::vector<std::function<void()>> j_; public: template<class F> void run(F f) { j_.push_back(std::function<void()>(f)); } void wait() { vrt_tbb::called(); auto j = j_; j_.clear(); vrt_tbb::run(j); } template<class F> void run_and_wait(F f) { run(f); wait(); } ~task_group() {} };
class task_arena { public: task_arena(int = -1, unsigned = 1) {} template<class F> auto execute(F f) -> decltype(f()) { return f(); } void initialize() {} int max_concurrency() const { return (int)vrt_tbb::active(); } };
template<class T> class combinable { std::map<std::thread::id, std::shared_ptr<T>> v_; std::mutex m_; std::function<T()> i_; public: combinable() : i_([] { return T(); }) {} template<class F> explicit combinable(F f) : i_(f) {} T &local() { std::lock_guard<std::mutex> g(m_); auto &p = v_[std::this_thread::get_id()]; if (!p) p = std::make_shared<T>(i_()); return *p; } template<class J> T combine(J j) { if (v_.empty()) return i_(); auto it = v_.begin(); T r = *it->second; for (++it; it != v_.end(); ++it) r = j(r, *it->second); return r; } template<class F> void combine_each(F f) { for (auto &x : v_) f(*x.second); } };
class global_control { public: enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception }; global_control(parameter p, std::size_t v) : p_(p), v_(v) { if (p_ == max_allowed_parallelism) { std::lock_guard<std::mutex> g(vrt_tbb::mtx()); vrt_tbb::limits().insert(v_); } } ~global_control() { if (p_ == max_allowed_parallelism) { std::lock_guard<std::mutex> g(vrt_tbb::mtx()); auto &l = vrt_tbb::limits(); l.erase(l.find(v_)); } } global_control(const global_control &) = delete; global_control &operator=(const global_control &) = delete; static std::size_t active_value(parameter p) { return p == max_allowed_parallelism ? vrt_tbb::active() : 0; } private: parameter p_; std::size_t v_; };
namespace this_task_arena { inline int max_concurrency() { return (int)vrt_tbb::active(); } }
struct info { static int default_concurrency() { return (int)std::thread::hardware_concurrency(); } };
}}
namespace tbb { using namespace oneapi::tbb; }
#endif

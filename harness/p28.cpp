// Concurrent construction.  `int` is a class while core.hpp and impl.hpp are read, so that the type of the identities
// (and of the counter they come from) reports every access to objects with static storage; std::atomic and std::mutex
// are replaced alike.  In the symbolic part each access is an event with a symbolic value and a symbolic time; in the
// replay part the accesses of real threads are made in the order of the times found by the solver.
#include <bits/stdc++.h>
#include <atomic>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <Eigen/Dense>
#include "../engine/engine.hpp"
#ifdef VERIF_PART_REAL
#define uncertainties uncertainties_real
#endif
extern char __data_start, _end;

namespace verif {
#ifdef VERIF_PART_SYM
typedef sym::Sym Val;
#else
typedef long long Val;
#endif
enum Kind { READ, WRITE, RMW, LOCK, UNLOCK };
struct Event { int thread; Kind kind; const void *at; Val r, w; };
struct TooLong {};
static bool active = false;                    // threads are being run
static thread_local int tid = 0;
static const size_t MAXEV = 24;                // events per thread
static int retries = 0;                        // failed compare-exchanges
static int MAXRETRY = 1;
inline bool shared(const void *p) { return active && p >= (void *)&__data_start && p < (void *)&_end; }

#ifdef VERIF_PART_SYM
static std::vector<std::vector<Event>> ev;     // by thread
static std::map<const void *, Val> init;       // initial values of the locations
inline Event &event(Kind k, const void *at) {
    if (ev[tid].size() >= MAXEV) throw TooLong();
    ev[tid].push_back(Event{tid, k, at, Val(0), Val(0)});
    Event &e = ev[tid].back();
    if (k == READ || k == RMW) { sym::Ctx<sym::Sym> c; e.r = c.in("read_" + std::to_string(tid) + "_" + std::to_string(ev[tid].size() - 1)); }
    return e;
}
inline Val rd(const void *at, const Val &mem) {
    if (!shared(at)) return mem;
    init.insert({at, mem});
    return event(READ, at).r;
}
inline void wr(const void *at, Val &mem, const Val &x) {
    if (!shared(at)) { mem = x; return; }
    init.insert({at, mem});
    event(WRITE, at).w = x;
}
template<class F> Val rmw(const void *at, Val &mem, F f) {
    if (!shared(at)) { Val r = mem; mem = f(r); return r; }
    init.insert({at, mem});
    event(RMW, at);
    const size_t i = ev[tid].size() - 1;
    const Val r = ev[tid][i].r, w = f(r);
    ev[tid][i].w = w;
    return r;
}
inline void lock(const void *at, Kind k) { if (active) event(k, at); }
inline bool eqv(const Val &a, const Val &b) { return a == b; }
#else
// the schedule: times of the events of each thread
static std::vector<std::vector<double>> times;
static std::vector<size_t> done;
static std::mutex mx; static std::condition_variable cv;
static bool off = false;                       // the run does not follow the schedule
static std::map<const void *, Val> before;     // values of the locations before the run
struct Turn {
    bool mine;
    Turn() {
        std::unique_lock<std::mutex> l(mx);
        auto ready = [] {
            if (off) return true;
            if (done[tid] >= times[tid].size()) { off = true; cv.notify_all(); return true; }
            const double t = times[tid][done[tid]];
            for (size_t i = 0; i < times.size(); ++i) if (done[i] < times[i].size() && times[i][done[i]] < t) return false;
            return true;
        };
        if (!cv.wait_for(l, std::chrono::seconds(3), ready)) { off = true; cv.notify_all(); }
        l.release();                           // held during the access
    }
    ~Turn() { ++done[tid]; mx.unlock(); cv.notify_all(); }
};
inline Val rd(const void *at, const Val &mem) { if (!shared(at)) return mem; Turn t; return mem; }
inline void wr(const void *at, Val &mem, const Val &x) { if (!shared(at)) { mem = x; return; } Turn t; before.insert({&mem, mem}); mem = x; }
template<class F> Val rmw(const void *at, Val &mem, F f) {
    if (!shared(at)) { Val r = mem; mem = f(r); return r; }
    Turn t; before.insert({&mem, mem}); Val r = mem; mem = f(r); return r;
}
inline void lock(const void *, Kind) { if (active) Turn t; }
inline bool eqv(Val a, Val b) { return a == b; }
#endif

struct Int {
    Val v;
    constexpr Int() : v(0) {}
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> constexpr Int(T x) : v((long long)x) {}
    struct Raw {}; Int(Raw, const Val &x) : v(x) {}
    Int(const Int &o) : v(rd(&o, o.v)) {}
    Int &operator=(const Int &o) { const Val x = rd(&o, o.v); wr(this, v, x); return *this; }
    Val get() const { return rd(this, v); }
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> operator T() const { const Val x = get(); return (T)(long)x; }
    Int operator-() const { return Int(Raw(), -get()); }
    Int &operator++() { wr(this, v, get() + Val(1)); return *this; }
    Int &operator--() { wr(this, v, get() - Val(1)); return *this; }
    Int operator++(int) { const Val x = get(); wr(this, v, x + Val(1)); return Int(Raw(), x); }
    Int operator--(int) { const Val x = get(); wr(this, v, x - Val(1)); return Int(Raw(), x); }
    template<class T> Int &operator+=(const T &o) { const Val y = Int(o).v; wr(this, v, get() + y); return *this; }
    template<class T> Int &operator-=(const T &o) { const Val y = Int(o).v; wr(this, v, get() - y); return *this; }
};
#define OPS(op) \
    inline Int operator op(const Int &a, const Int &b) { return Int(Int::Raw(), a.get() op b.get()); } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> Int operator op(const Int &a, T b) { return Int(Int::Raw(), a.get() op Int(b).v); } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> Int operator op(T a, const Int &b) { return Int(Int::Raw(), Int(a).v op b.get()); }
OPS(+) OPS(-) OPS(*)
#undef OPS
#define OPS(op) \
    inline bool operator op(const Int &a, const Int &b) { return a.get() op b.get(); } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> bool operator op(const Int &a, T b) { return a.get() op Int(b).v; } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> bool operator op(T a, const Int &b) { return Int(a).v op b.get(); }
OPS(<) OPS(<=) OPS(>) OPS(>=) OPS(==) OPS(!=)
#undef OPS
}

typedef verif::Int vint64;
namespace std {
typedef verif::Int vint64;
inline verif::Int abs(const verif::Int &x) { return x < 0 ? -x : x; }
inline string to_string(const verif::Int &x) { return to_string((long)x); }
template<class T> class vatomic {            // T is verif::Int or a type that converts to it
    verif::Int m;
    typedef verif::Int::Raw Raw;
    static verif::Val val(const T &x) { return verif::Int(x).v; }
    template<class F> T old(F f) { return T(verif::Int(Raw(), verif::rmw(&m, m.v, f))); }
    template<class F> T neu(F f) { return T(verif::Int(Raw(), f(verif::rmw(&m, m.v, f)))); }
public:
    constexpr vatomic() noexcept : m() {}
    constexpr vatomic(const int &x) noexcept : m(x) {}
    vatomic(const vatomic &) = delete;
    T load(memory_order = memory_order_seq_cst) const { return T(verif::Int(Raw(), m.get())); }
    void store(const T &x, memory_order = memory_order_seq_cst) { verif::wr(&m, m.v, val(x)); }
    operator T() const { return load(); }
    T operator=(const T &x) { store(x); return x; }
    T operator++() { return neu([](const verif::Val &r) { return r + verif::Val(1); }); }
    T operator--() { return neu([](const verif::Val &r) { return r - verif::Val(1); }); }
    T operator++(int) { return old([](const verif::Val &r) { return r + verif::Val(1); }); }
    T operator--(int) { return old([](const verif::Val &r) { return r - verif::Val(1); }); }
    T operator+=(const T &x) { return neu([&](const verif::Val &r) { return r + val(x); }); }
    T operator-=(const T &x) { return neu([&](const verif::Val &r) { return r - val(x); }); }
    T fetch_add(const T &x, memory_order = memory_order_seq_cst) { return old([&](const verif::Val &r) { return r + val(x); }); }
    T fetch_sub(const T &x, memory_order = memory_order_seq_cst) { return old([&](const verif::Val &r) { return r - val(x); }); }
    T exchange(const T &x, memory_order = memory_order_seq_cst) { return old([&](const verif::Val &) { return val(x); }); }
    bool compare_exchange_strong(T &e, const T &d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
        bool ok = false;
        const verif::Val r = verif::rmw(&m, m.v, [&](const verif::Val &x) { ok = verif::eqv(x, val(e)); return ok ? val(d) : x; });
        if (!ok && verif::active && ++verif::retries > verif::MAXRETRY) throw verif::TooLong();
        if (!ok) e = T(verif::Int(Raw(), r));
        return ok;
    }
    bool compare_exchange_weak(T &e, const T &d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) { return compare_exchange_strong(e, d, a, b); }
    bool is_lock_free() const { return true; }
};
class vmutex {
    char c = 0;
public:
    constexpr vmutex() noexcept {}
    void lock() { verif::lock(this, verif::LOCK); }
    bool try_lock() { lock(); return true; }
    void unlock() { verif::lock(this, verif::UNLOCK); }
    void lock_shared() { lock(); }
    void unlock_shared() { unlock(); }
};
}
#define atomic vatomic
#define mutex vmutex
#define recursive_mutex vmutex
#define shared_mutex vmutex
#define int verif::Int
#define int64_t vint64
#ifdef VERIF_LONG
#define long verif::Int
#endif
#include <uncertainties/core.hpp>
#include <uncertainties/impl.hpp>
#undef int
#undef int64_t
#undef long
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#undef atomic
#undef mutex
#undef recursive_mutex
#undef shared_mutex
namespace unc = uncertainties;
#ifndef VERIF_LONG
static_assert(std::is_same<unc::Id, verif::Int>::value, "Id is not int: use the other encoding");
#endif
using sym::EQ; using sym::NE; using sym::LT; using sym::LE; using sym::GT; using sym::GE;

typedef unc::UReal<double> U1;
typedef unc::UReal2<double, unc::Prop::mean> UM;
typedef unc::UReal2<double, unc::Prop::est> UE;
typedef std::function<unc::Id()> Made;
static Made construct(int kind) {
    static const std::array<double, 6> sm{0, 3, 0, 15, 0, 105};
    static const std::array<double, 7> cm{1, 0, 3, 0, 15, 0, 105};
    switch (kind) {
    case 0: { auto x = std::make_shared<U1>(1, 1); return [x] { return x->indepid(); }; }
    case 1: { auto x = std::make_shared<UM>(1, 1, sm, -1); return [x] { return x->indepid(); }; }
    default: { auto x = std::make_shared<UE>(1, cm, -1); return [x] { return x->indepid(); }; }
    }
}

static verif::Val raw(const verif::Int &x) { return x.v; }
template<class T> static verif::Val raw(const T &x) { return verif::Val((long long)x); }

template<class R> static void run(sym::Ctx<R> &c, const std::vector<std::vector<int>> &kinds) {
    using namespace verif;
    const size_t T = kinds.size();        // thread 0 is the main thread: it is done before the others start
    std::vector<std::vector<Made>> made(T);
    std::vector<std::exception_ptr> err(T);
    auto body = [&](int t) {
        tid = t;
        try { for (int k : kinds[t]) made[t].push_back(construct(k)); } catch (...) { err[t] = std::current_exception(); }
        tid = 0;
    };
    std::vector<R> ids;
    auto label = [](size_t i, size_t j) { return "identities " + std::to_string(i) + " and " + std::to_string(j) + " differ"; };
#ifdef VERIF_PART_SYM
    ev.assign(T, {}); init.clear();
    active = true; retries = 0; MAXRETRY = sym::thorough() ? 3 : 1;
    for (size_t t = 0; t < T; ++t) { std::thread th(body, (int)t); th.join(); }   // (a thread each, for new thread_local objects)
    active = false;
    for (auto &e : err) if (e) {
        try { std::rethrow_exception(e); } catch (const TooLong &) { throw sym::AssumeFailed(); }
    }
    // times: all different, increasing in each thread, thread 0 first
    size_t N = 0; for (auto &v : ev) N += v.size();
    struct E { Event e; R t; };
    std::vector<E> all; size_t idx = 0;
    for (size_t t = 0; t < T; ++t) for (size_t i = 0; i < ev[t].size(); ++i) {
        const R clk = c.integer("time_" + std::to_string(t) + "_" + std::to_string(i), 0, int(N) - 1);
        if (t == 0) c.assume_rel(clk, EQ, R(int(idx)));
        ++idx;
        if (i) c.assume_rel(all.back().t, LT, clk);
        all.push_back(E{ev[t][i], clk});
    }
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) if (all[i].e.thread != all[j].e.thread) c.assume_rel(all[i].t, NE, all[j].t);
    // a read takes the value of the last write before it, or the initial value
    for (size_t i = 0; i < all.size(); ++i) if (all[i].e.kind == READ || all[i].e.kind == RMW) {
        std::vector<size_t> w;
        for (size_t j = 0; j < all.size(); ++j) if (j != i && all[j].e.at == all[i].e.at && (all[j].e.kind == WRITE || all[j].e.kind == RMW)) w.push_back(j);
        const R src = c.integer("from_" + std::to_string(i), 0, (int)w.size());
        for (size_t k = 0; k <= w.size(); ++k) {      // src == k implies ...
            auto imp = [&](const R &a, sym::Rel r, const R &b) { c.assume_any({{src, NE, R((int)k)}, {a, r, b}}); };
            if (k == w.size()) {
                imp(all[i].e.r, EQ, init[all[i].e.at]);
                for (size_t x : w) imp(all[x].t, GT, all[i].t);
            } else {
                const E &s = all[w[k]];
                imp(all[i].e.r, EQ, s.e.w);
                imp(s.t, LT, all[i].t);
                for (size_t x : w) if (x != w[k]) c.assume_any({{src, NE, R((int)k)}, {all[x].t, LT, s.t}, {all[x].t, GT, all[i].t}});
            }
        }
    }
    // critical sections of one mutex do not overlap
    struct Sec { int t; const void *at; size_t l, u; };
    std::vector<Sec> secs;
    for (size_t i = 0; i < all.size(); ++i) if (all[i].e.kind == LOCK)
        for (size_t j = i + 1; j < all.size() && all[j].e.thread == all[i].e.thread; ++j)
            if (all[j].e.kind == UNLOCK && all[j].e.at == all[i].e.at) { secs.push_back({all[i].e.thread, all[i].e.at, i, j}); break; }
    for (auto &a : secs) for (auto &b : secs) if (a.t < b.t && a.at == b.at)
        c.assume_any({{all[a.u].t, LT, all[b.l].t}, {all[b.u].t, LT, all[a.l].t}});
    for (auto &v : made) for (auto &m : v) ids.push_back(raw(m()));
#else
    times.assign(T, {}); done.assign(T, 0); off = false;
    for (size_t t = 0; t < T; ++t) for (int i = 0;; ++i) {
        auto it = sym::g_replay->model.val.find("time_" + std::to_string(t) + "_" + std::to_string(i));
        if (it == sym::g_replay->model.val.end()) break;
        times[t].push_back(it->second);
    }
    active = true;
    { std::thread first(body, 0); first.join(); }
    std::vector<std::thread> th;
    for (size_t t = 1; t < T; ++t) th.emplace_back(body, (int)t);
    for (auto &x : th) x.join();
    active = false;
    for (auto &v : made) for (auto &m : v) ids.push_back(R((long long)raw(m())));
    for (auto &b : before) *const_cast<Val *>((const Val *)b.first) = b.second;
    before.clear();
    for (auto &e : err) if (e) std::rethrow_exception(e);
    if (off) throw sym::ReplayVoid();
#endif
    for (size_t i = 0; i < ids.size(); ++i) {
        c.rel("identity " + std::to_string(i) + " is positive", ids[i], GT, R(0));
        for (size_t j = 0; j < i; ++j) c.rel(label(i, j), ids[i], NE, ids[j]);
    }
}
// shapes: number of constructions of the main thread, then of each thread
static const std::vector<std::vector<int>> shapes = {{0, 2, 2}, {1, 1, 1, 1}, {1, 2, 1}, {0, 3, 1}, {0, 2, 2, 1}, {0, 1, 1, 1, 1}, {2, 3, 3}, {0, 2, 2, 2}};
template<class R> static void shape(sym::Ctx<R> &c, int conf) {
    const auto &s = shapes[conf / 9];
    std::vector<std::vector<int>> kinds; int n = 0;
    for (int k : s) {
        kinds.emplace_back();
        for (int i = 0; i < k; ++i, ++n) kinds.back().push_back(n == 0 ? conf % 3 : n == 1 ? conf / 3 % 3 : c.choose(3, "constructor"));
    }
    run(c, kinds);
}
HARNESS(schedules, 4 * 9, 8 * 9, "all sequentially consistent interleavings of the accesses of 2 or 3 threads (thorough 4), up to 4 (thorough 8) constructions by the three constructors in any mixture, after 0 to 2 by the main thread; at most 24 accesses per thread and 1 (thorough 3) failed compare-exchanges") { shape(c, conf); }

// rnd.hpp -- floating point numbers as rounded reals.  In the symbolic run each operation of the type
// gives (exact result) (1 + e) with a fresh symbolic e, |e| <= 2^-53, an infinity beyond the largest number, and
// (exact result) + d with a fresh d, |d| <= 2^-1075, below the smallest normal one: the standard model of
// IEEE 754 double with round to nearest.  In the replay the type is double.
#ifndef VERIF_RND_HPP
#define VERIF_RND_HPP
#include "../engine/engine.hpp"
#include <memory>
#include <functional>
namespace rnd {
    static sym::Ctx<sym::Sym> *ctx;
    static int fresh;
    static bool lazy_zero;                    // a number not yet looked at counts as nonzero in comparisons with 0 (stored second derivatives)
    static bool round_off;                    // false: only the range of the type is modelled
    template<class T> using if_num = typename std::enable_if<std::is_arithmetic<T>::value, int>::type;
    using sym::Sym;
    constexpr double MAX = std::numeric_limits<double>::max(), MIN = std::numeric_limits<double>::min();

    // An operation is carried out when its result is looked at (compared, converted or asked by the harness),
    // so that what the result asked for does not depend on does not multiply paths.
    struct Rnd {
        struct Node { bool done; Sym v; std::function<Sym()> f; };
        std::shared_ptr<Node> p;
        Rnd(): p(std::make_shared<Node>(Node{true, Sym(0), nullptr})) {}
        template<class T, if_num<T> = 0> Rnd(T x): p(std::make_shared<Node>(Node{true, Sym(x), nullptr})) {}
        static Rnd of(const Sym &x) { Rnd r; r.p->v = x; return r; }
        template<class F> static Rnd later(F f) { Rnd r; r.p->done = false; r.p->f = f; return r; }
        const Sym &val() const { if (!p->done) { p->v = p->f(); p->done = true; p->f = nullptr; } return p->v; }
        template<class T, typename std::enable_if<std::is_same<T, double>::value || std::is_same<T, float>::value || std::is_same<T, long double>::value, int>::type = 0>
        explicit operator T() const { return T(val()); }
        explicit operator bool() const { return *this != Rnd(0); }
        explicit operator int() const { return static_cast<int>(val()); }
        explicit operator long() const { return static_cast<long>(val()); }

        static Sym err(double bound) {
            const Sym e = ctx->in("rounding" + std::to_string(fresh++));
            ctx->assume_rel(e, sym::LE, Sym(bound)); ctx->assume_rel(e, sym::GE, Sym(-bound));
            return e;
        }
        static Sym relative(const Sym &x) { return round_off && x.kind == sym::K_FRAC ? x * (Sym(1) + err(0x1p-53)) : x; }
        static Sym exact(const Sym &x) { return x; }
        static Sym rounded(const Sym &x) {
            if (!x.fin() || x.kind == sym::K_CONST) return x;
            if (x > Sym(MAX)) return Sym::inf(1);
            if (x < Sym(-MAX)) return Sym::inf(-1);
            if (x == Sym(0)) return Sym(0);
            if (x < Sym(MIN) && x > Sym(-MIN)) return x + err(0x1p-1074);    // (2^-1075 is not a double)
            return relative(x);
        }
        static bool one(const Sym &x) { return x.kind == sym::K_CONST && (x.c == 1 || x.c == -1); }
        static bool zero(const Sym &x) { return x.kind == sym::K_CONST && x.c == 0; }
        friend Rnd operator+(const Rnd &a, const Rnd &b) { return later([a, b] { const Sym &x = a.val(), &y = b.val(); return zero(x) || zero(y) ? x + y : rounded(x + y); }); }
        friend Rnd operator-(const Rnd &a, const Rnd &b) { return later([a, b] { const Sym &x = a.val(), &y = b.val(); return zero(x) || zero(y) ? x - y : rounded(x - y); }); }
        friend Rnd operator*(const Rnd &a, const Rnd &b) { return later([a, b] { const Sym &x = a.val(), &y = b.val(); return one(x) || one(y) ? x * y : rounded(x * y); }); }
        friend Rnd operator/(const Rnd &a, const Rnd &b) { return later([a, b] { const Sym &x = a.val(), &y = b.val(); return one(y) ? x / y : rounded(x / y); }); }
        Rnd operator-() const { const Rnd a = *this; return later([a] { return -a.val(); }); } Rnd operator+() const { return *this; }
#define OP(o) \
        template<class T, if_num<T> = 0> friend Rnd operator o(const Rnd &a, T b) { return a o Rnd(b); } \
        template<class T, if_num<T> = 0> friend Rnd operator o(T a, const Rnd &b) { return Rnd(a) o b; } \
        Rnd &operator o##=(const Rnd &b) { return *this = *this o b; } \
        template<class T, if_num<T> = 0> Rnd &operator o##=(T b) { return *this = *this o Rnd(b); }
        OP(+) OP(-) OP(*) OP(/)
#undef OP
        Rnd &operator++() { return *this += 1; } Rnd operator++(int) { Rnd t = *this; *this += 1; return t; }
        Rnd &operator--() { return *this -= 1; } Rnd operator--(int) { Rnd t = *this; *this -= 1; return t; }
#define OP(o) \
        friend bool operator o(const Rnd &a, const Rnd &b) { return a.val() o b.val(); } \
        template<class T, if_num<T> = 0> friend bool operator o(const Rnd &a, T b) { return a o Rnd(b); } \
        template<class T, if_num<T> = 0> friend bool operator o(T a, const Rnd &b) { return Rnd(a) o b; }
        OP(<) OP(<=) OP(>) OP(>=)
#undef OP
        static bool skip(const Rnd &a, const Rnd &b) { return lazy_zero && ((!a.p->done && b.p->done && zero(b.p->v)) || (!b.p->done && a.p->done && zero(a.p->v))); }
        friend bool operator==(const Rnd &a, const Rnd &b) { return !skip(a, b) && a.val() == b.val(); }
        friend bool operator!=(const Rnd &a, const Rnd &b) { return skip(a, b) || a.val() != b.val(); }
#define OP(o) \
        template<class T, if_num<T> = 0> friend bool operator o(const Rnd &a, T b) { return a o Rnd(b); } \
        template<class T, if_num<T> = 0> friend bool operator o(T a, const Rnd &b) { return Rnd(a) o b; }
        OP(==) OP(!=)
#undef OP
        friend std::ostream &operator<<(std::ostream &os, const Rnd &x) { return os << x.val(); }
    };
    // results in range by themselves / in any range / exact
#define FN1(f) inline Rnd f(const Rnd &x) { return Rnd::later([x] { return Rnd::relative(sym::f(x.val())); }); }
    FN1(sqrt) FN1(cbrt) FN1(log) FN1(log2) FN1(log10) FN1(cos) FN1(acos) FN1(asinh) FN1(acosh)
    FN1(log1p) FN1(sin) FN1(tan) FN1(asin) FN1(atan) FN1(tanh) FN1(atanh) FN1(erf)
#undef FN1
#define FN1(f) inline Rnd f(const Rnd &x) { return Rnd::later([x] { return Rnd::rounded(sym::f(x.val())); }); }
    FN1(exp) FN1(exp2) FN1(expm1) FN1(sinh) FN1(cosh) FN1(erfc)
#undef FN1
#define FN1(f) inline Rnd f(const Rnd &x) { return Rnd::later([x] { return Rnd::exact(sym::f(x.val())); }); }
    FN1(abs) FN1(fabs) FN1(floor) FN1(ceil) FN1(trunc) FN1(round) FN1(rint) FN1(nearbyint)
#undef FN1
#define FN2(f, how) \
    inline Rnd f(const Rnd &x, const Rnd &y) { return Rnd::later([x, y] { return Rnd::how(sym::f(x.val(), y.val())); }); } \
    template<class T, if_num<T> = 0> Rnd f(const Rnd &x, T y) { return f(x, Rnd(y)); } \
    template<class T, if_num<T> = 0> Rnd f(T x, const Rnd &y) { return f(Rnd(x), y); }
    FN2(pow, rounded) FN2(hypot, rounded) FN2(atan2, rounded) FN2(fdim, rounded)
    FN2(fmod, exact) FN2(remainder, exact) FN2(fmax, exact) FN2(fmin, exact) FN2(copysign, exact)
#undef FN2
    inline Rnd fma(const Rnd &x, const Rnd &y, const Rnd &z) { return Rnd::later([x, y, z] { return Rnd::rounded(x.val() * y.val() + z.val()); }); }
#define FNB(f) inline bool f(const Rnd &x) { return sym::f(x.val()); }
    FNB(isnan) FNB(isinf) FNB(isfinite) FNB(isnormal) FNB(signbit)
#undef FNB
    inline Rnd conj(const Rnd &x) { return x; } inline Rnd real(const Rnd &x) { return x; } inline Rnd imag(const Rnd &) { return Rnd(0); } inline Rnd abs2(const Rnd &x) { return x * x; }
}
namespace std {
#define U(f) using rnd::f;
    U(abs) U(fabs) U(sqrt) U(cbrt) U(exp) U(exp2) U(expm1) U(log) U(log2) U(log10) U(log1p) U(sin) U(cos) U(tan)
    U(asin) U(acos) U(atan) U(sinh) U(cosh) U(tanh) U(asinh) U(acosh) U(atanh) U(erf) U(erfc)
    U(floor) U(ceil) U(trunc) U(round) U(rint) U(nearbyint) U(pow) U(hypot) U(atan2) U(fmod) U(remainder) U(fmax) U(fmin) U(fdim) U(copysign) U(fma)
    U(isnan) U(isinf) U(isfinite) U(isnormal) U(signbit)
#undef U
    template<> class numeric_limits<rnd::Rnd>: public numeric_limits<double> {
        using W = rnd::Rnd; using L = numeric_limits<double>;
    public:
        static W epsilon() noexcept { return L::epsilon(); }
        static W min() noexcept { return L::min(); }
        static W max() noexcept { return L::max(); }
        static W lowest() noexcept { return L::lowest(); }
        static W denorm_min() noexcept { return L::denorm_min(); }
        static W infinity() noexcept { return L::infinity(); }
        static W quiet_NaN() noexcept { return L::quiet_NaN(); }
    };
}
#include <Eigen/Core>
namespace Eigen {
    template<> struct NumTraits<rnd::Rnd>: GenericNumTraits<rnd::Rnd> {
        typedef rnd::Rnd Real; typedef Real NonInteger; typedef Real Nested; typedef Real Literal;
        enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
        static Real epsilon() { return std::numeric_limits<Real>::epsilon(); }
        static Real dummy_precision() { return std::numeric_limits<Real>::epsilon(); }
        static Real highest() { return (std::numeric_limits<Real>::max)(); }
        static Real lowest() { return std::numeric_limits<Real>::lowest(); }
        static int digits10() { return 15; }
    };
}
// numbers of the library (N) and of the oracle (E: exact, or long double in the replay)
template<class R> struct Num {
    using N = double; using E = long double;
    static N of(const R &x) { return N(x); }
    static E exact(N x) { return x; }
    static R back(E x) { return R(x); }
    static void start(sym::Ctx<R> &, bool, bool = false) {}
};
template<> struct Num<sym::Sym> {
    using N = rnd::Rnd; using E = sym::Sym;
    static N of(const E &x) { return N::of(x); }
    static E exact(const N &x) { return x.val(); }
    static E back(const E &x) { return x; }
    static void start(sym::Ctx<E> &c, bool round_off, bool second = false) { rnd::ctx = &c; rnd::fresh = 0; rnd::round_off = round_off; rnd::lazy_zero = second; sym::any_scale(true); }
};
// |got - want| <= tol units of 2^-53 |want|, for results in the range of normal numbers
template<class R> static void accurate(sym::Ctx<R> &c, const std::string &lab, const typename Num<R>::N &got, const typename Num<R>::E &want, double tol = 16) {
    using T = Num<R>; using E = typename T::E;
    using std::abs; using std::isfinite;
    const E w = abs(want);
    c.assume_rel(T::back(w), sym::LE, R(rnd::MAX / 4));
    const std::string lo = lab + ": not too low", hi = lab + ": not too high";
    if (!(w == E(0))) c.assume_rel(T::back(w), sym::GE, R(rnd::MIN * 4));
    const E g = T::exact(got);
    if (w == E(0)) { c.rel(hi, T::back(g), sym::EQ, R(0)); return; }
    if (!isfinite(g)) { c.rel(hi, R(1e9), sym::LE, R(tol)); return; }
    if constexpr (sym::Ctx<R>::symbolic) {
        c.rel(lo, (g - want) * sym::Sym(0x1p53), sym::GE, sym::Sym(-tol) * w);
        c.rel(hi, (g - want) * sym::Sym(0x1p53), sym::LE, sym::Sym(tol) * w);
    } else {
        E q = (g - want) / w * 0x1p53L;
        q = q > 1e9L ? 1e9L : q < -1e9L ? -1e9L : q;
        c.rel(lo, R(q), sym::GE, R(-tol)); c.rel(hi, R(q), sym::LE, R(tol));
    }
}
#endif

// wide.hpp -- a numerical type that, like long double, converts silently to double, and notices it
#ifndef VERIF_WIDE_HPP
#define VERIF_WIDE_HPP
#include "../engine/engine.hpp"
#ifndef WIDE_EXPLICIT
#define WIDE_EXPLICIT
#endif
// (with -DWIDE_EXPLICIT=explicit, for code whose overload resolution is upset by the silent conversion: the
//  conversion has to be written, and the global functions are those below)
// (no mathematical functions in this namespace: as for built-in types, an unqualified call without a
//  using-declaration finds the functions on double in the global namespace)
namespace wide {
    static int narrowed = 0;                 // conversions to a narrower floating point type
    static int crude = 0;                    // numbers made from constants that are not exact in any type
    inline double exact(double x) {          // integers, halves, ... are exact in every type; 0.1 is not
        if (x == x && double(float(x)) != x) crude = crude + 1;
        return x;
    }
    template<class T> using if_float = typename std::enable_if<std::is_floating_point<T>::value, int>::type;
    template<class T> using if_int = typename std::enable_if<std::is_integral<T>::value, int>::type;
    template<class T> using if_num = typename std::enable_if<std::is_arithmetic<T>::value, int>::type;

    template<class R> struct Wide {
        R v;
        Wide(): v(0) {}
        template<class T, if_int<T> = 0> Wide(T x): v(x) {}
        template<class T, if_float<T> = 0> Wide(T x): v(exact(double(x))) { if (T(double(x)) != x) crude = crude + 1; }
        static Wide of(const R &x) { Wide w; w.v = x; return w; }

        // (a template, so that no conversion to an integer follows)
        template<class T, typename std::enable_if<std::is_same<T, double>::value, int>::type = 0> WIDE_EXPLICIT operator T() const { return narrow<T>(); }
        template<class T, typename std::enable_if<std::is_same<T, float>::value || std::is_same<T, long double>::value, int>::type = 0> explicit operator T() const { return narrow<T>(); }
        template<class T> T narrow() const { narrowed = narrowed + 1; return T(sym::Ctx<R>::symbolic ? 0.75 : num(v)); }
        explicit operator bool() const { return v != R(0); }
        explicit operator int() const { return static_cast<int>(v); }
        explicit operator long() const { return static_cast<long>(v); }
        static double num(double x) { return x; } static double num(long double x) { return x; } static double num(const sym::Sym &) { return 0.75; }

        Wide &operator+=(const Wide &o) { v += o.v; return *this; } Wide &operator-=(const Wide &o) { v -= o.v; return *this; }
        Wide &operator*=(const Wide &o) { v *= o.v; return *this; } Wide &operator/=(const Wide &o) { v /= o.v; return *this; }
        template<class T, if_num<T> = 0> Wide &operator+=(T o) { return *this += Wide(o); }
        template<class T, if_num<T> = 0> Wide &operator-=(T o) { return *this -= Wide(o); }
        template<class T, if_num<T> = 0> Wide &operator*=(T o) { return *this *= Wide(o); }
        template<class T, if_num<T> = 0> Wide &operator/=(T o) { return *this /= Wide(o); }
        Wide &operator++() { v += R(1); return *this; } Wide operator++(int) { Wide t = *this; v += R(1); return t; }
        Wide &operator--() { v -= R(1); return *this; } Wide operator--(int) { Wide t = *this; v -= R(1); return t; }
        Wide operator-() const { return of(-v); } Wide operator+() const { return *this; }
#define OP(o) \
        friend Wide operator o(const Wide &a, const Wide &b) { return of(R(a.v o b.v)); } \
        template<class T, if_num<T> = 0> friend Wide operator o(const Wide &a, T b) { return a o Wide(b); } \
        template<class T, if_num<T> = 0> friend Wide operator o(T a, const Wide &b) { return Wide(a) o b; }
        OP(+) OP(-) OP(*) OP(/)
#undef OP
#define OP(o) \
        friend bool operator o(const Wide &a, const Wide &b) { return a.v o b.v; } \
        template<class T, if_num<T> = 0> friend bool operator o(const Wide &a, T b) { return a o Wide(b); } \
        template<class T, if_num<T> = 0> friend bool operator o(T a, const Wide &b) { return Wide(a) o b; }
        OP(<) OP(<=) OP(>) OP(>=) OP(==) OP(!=)
#undef OP
        friend std::ostream &operator<<(std::ostream &os, const Wide &x) { return os << x.v; }
    };
    // a second such type
    template<class R> struct Wider: Wide<R> {
        using Wide<R>::Wide;
        Wider() {}
        Wider(const Wide<R> &x): Wide<R>(x) {}
    };
}
namespace std {
#define FN1(f) template<class R> wide::Wide<R> f(const wide::Wide<R> &x) { using std::f; return wide::Wide<R>::of(R(f(x.v))); }
#define FN2(f) \
    template<class R> wide::Wide<R> f(const wide::Wide<R> &x, const wide::Wide<R> &y) { using std::f; return wide::Wide<R>::of(R(f(x.v, y.v))); } \
    template<class R, class T, wide::if_num<T> = 0> wide::Wide<R> f(const wide::Wide<R> &x, T y) { return f(x, wide::Wide<R>(y)); } \
    template<class R, class T, wide::if_num<T> = 0> wide::Wide<R> f(T x, const wide::Wide<R> &y) { return f(wide::Wide<R>(x), y); }
#define FNB(f) template<class R> bool f(const wide::Wide<R> &x) { using std::f; return f(x.v); }
    FN1(abs) FN1(fabs) FN1(sqrt) FN1(cbrt) FN1(exp) FN1(exp2) FN1(expm1) FN1(log) FN1(log2) FN1(log10) FN1(log1p) FN1(sin) FN1(cos) FN1(tan)
    FN1(asin) FN1(acos) FN1(atan) FN1(sinh) FN1(cosh) FN1(tanh) FN1(asinh) FN1(acosh) FN1(atanh) FN1(erf) FN1(erfc)
    FN1(floor) FN1(ceil) FN1(trunc) FN1(round) FN1(rint) FN1(nearbyint)
    FN2(pow) FN2(hypot) FN2(atan2) FN2(fmod) FN2(remainder) FN2(fmax) FN2(fmin) FN2(fdim) FN2(copysign)
    FNB(isnan) FNB(isinf) FNB(isfinite) FNB(isnormal) FNB(signbit)
#undef FN1
#undef FN2
#undef FNB
    template<class R> class numeric_limits<wide::Wide<R>>: public numeric_limits<R> {
        using W = wide::Wide<R>; using L = numeric_limits<R>;
    public:
        static W epsilon() noexcept { return W::of(L::epsilon()); }
        static W min() noexcept { return W::of(L::min()); }
        static W max() noexcept { return W::of(L::max()); }
        static W lowest() noexcept { return W::of(L::lowest()); }
        static W denorm_min() noexcept { return W::of(L::denorm_min()); }
        static W infinity() noexcept { return W::of(L::infinity()); }
        static W quiet_NaN() noexcept { return W::of(L::quiet_NaN()); }
    };
    template<class R> class numeric_limits<wide::Wider<R>>: public numeric_limits<wide::Wide<R>> {};
}
#ifdef WIDE_GLOBAL
#define FN1(f) template<class R> wide::Wide<R> f(const wide::Wide<R> &x) { return wide::Wide<R>(x.template narrow<double>()); }
FN1(abs) FN1(fabs) FN1(sqrt) FN1(cbrt) FN1(exp) FN1(exp2) FN1(expm1) FN1(log) FN1(log2) FN1(log10) FN1(log1p) FN1(sin) FN1(cos) FN1(tan)
FN1(asin) FN1(acos) FN1(atan) FN1(sinh) FN1(cosh) FN1(tanh) FN1(asinh) FN1(acosh) FN1(atanh) FN1(erf) FN1(erfc)
FN1(floor) FN1(ceil) FN1(trunc) FN1(round) FN1(rint) FN1(nearbyint)
#undef FN1
#endif
#include <Eigen/Core>
namespace Eigen {
    template<class R> struct NumTraits<wide::Wide<R>>: GenericNumTraits<wide::Wide<R>> {
        typedef wide::Wide<R> Real; typedef Real NonInteger; typedef Real Nested; typedef Real Literal;
        enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
        static Real epsilon() { return std::numeric_limits<Real>::epsilon(); }
        static Real dummy_precision() { return std::numeric_limits<Real>::epsilon(); }
        static Real highest() { return (std::numeric_limits<Real>::max)(); }
        static Real lowest() { return std::numeric_limits<Real>::lowest(); }
        static int digits10() { return 15; }
    };
}
#endif

// the integers of the text helpers are symbolic too: in the symbolic part `int` is a class
#include <bits/stdc++.h>
#include <Eigen/Dense>
#include "../engine/engine.hpp"
#if defined VERIF_PART_SYM && !defined VERIF_PLAIN_INT
struct SymInt {
    sym::Sym v;
    constexpr SymInt() {}
    constexpr SymInt(const sym::Sym &s) : v(s) {}
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> constexpr SymInt(T x) : v((long)x) {}
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> operator T() const { return (T)(long)v; }
    SymInt operator-() const { return -v; }
    SymInt operator+() const { return *this; }
    SymInt &operator++() { v += sym::Sym(1); return *this; }
    SymInt &operator--() { v -= sym::Sym(1); return *this; }
    SymInt operator++(int) { SymInt t = *this; ++*this; return t; }
    SymInt operator--(int) { SymInt t = *this; --*this; return t; }
    template<class T> SymInt &operator+=(const T &o) { v = v + SymInt(o).v; return *this; }
    template<class T> SymInt &operator-=(const T &o) { v = v - SymInt(o).v; return *this; }
    template<class T> SymInt &operator*=(const T &o) { v = v * SymInt(o).v; return *this; }
    template<class T> SymInt &operator/=(const T &o) { v = sym::trunc(v / SymInt(o).v); return *this; }
    template<class T> SymInt &operator%=(const T &o) { v = v - SymInt(o).v * sym::trunc(v / SymInt(o).v); return *this; }
};
#define OPS(op) \
    inline SymInt operator op(const SymInt &a, const SymInt &b) { return a.v op b.v; } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> SymInt operator op(const SymInt &a, T b) { return a.v op SymInt(b).v; } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> SymInt operator op(T a, const SymInt &b) { return SymInt(a).v op b.v; }
OPS(+) OPS(-) OPS(*)
#undef OPS
// division of integers truncates
inline SymInt sdiv(const SymInt &a, const SymInt &b) { return sym::trunc(a.v / b.v); }
inline SymInt smod(const SymInt &a, const SymInt &b) { return a - b * sdiv(a, b); }
#define OPS(op, f) \
    inline SymInt operator op(const SymInt &a, const SymInt &b) { return f(a, b); } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> SymInt operator op(const SymInt &a, T b) { return f(a, b); } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> SymInt operator op(T a, const SymInt &b) { return f(a, b); }
OPS(/, sdiv) OPS(%, smod)
#undef OPS
#define OPS(op) \
    inline bool operator op(const SymInt &a, const SymInt &b) { return a.v op b.v; } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> bool operator op(const SymInt &a, T b) { return a.v op SymInt(b).v; } \
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> bool operator op(T a, const SymInt &b) { return SymInt(a).v op b.v; }
OPS(<) OPS(<=) OPS(>) OPS(>=) OPS(==) OPS(!=)
#undef OPS
namespace std {
    inline SymInt abs(const SymInt &x) { return x < 0 ? -x : x; }
    inline string verif_to_string(const SymInt &x) { return string(1, sym::digit_char(x.v)); }
    template<class T> string verif_to_string(const T &x) { return to_string(x); }
}
#define int SymInt
#define float sym::Sym
#define to_string verif_to_string
#include <uncertainties/core.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
#undef int
#undef float
#undef to_string
typedef SymInt Int;
#else
#ifdef VERIF_PART_REAL
#define uncertainties uncertainties_real
#endif
#include <uncertainties/core.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
typedef int Int;
#endif
namespace unc = uncertainties;
#include "numeral.hpp"

template<class R> static Int integer(const R &x) {
#if defined VERIF_PART_SYM && !defined VERIF_PLAIN_INT
    return Int(x);
#else
    return (int)x;
#endif
}
template<class R> static char digit_char(const R &d) {
    if constexpr (std::is_same<R, sym::Sym>::value) return sym::digit_char(d); else return char('0' + (int)d);
}
HARNESS(point, 12, 24, "digit strings of length 1..12 (thorough 24) with symbolic digits, nominal length n in -4..L+3, exponent e in n-12..n-1, both symbolic integers") {
    const int L = conf + 1;
    const R n = c.integer("n", -4, L + 3), e = c.integer("e", -16, L + 2);
    c.assume_rel(e, LT, n);
    c.assume_rel(e, GE, n - R(12));
    std::string s; R coef(0);
    for (int i = 0; i < L; ++i) {
        const R d = c.integer(S("d", i), 0, 9);
        coef = coef * R(10) + d;
        s.push_back(digit_char<R>(d));
    }
    // the leading digit of L digits of which n were expected has exponent e + L - n: the text denotes digits * 10^(e-n+1)
    unc::internal::insert_dot(&s, integer<R>(n), integer<R>(e));
    Numeral<R> a(s);
    c.truth("is a decimal numeral", a.ok);
    if (!a.ok) return;
    c.truth("no sign", !a.neg);
    c.eq("digits kept", a.coef, coef);
    c.eq("place of the point", R(a.decimals), n - R(1) - e);
}
HARNESS(exponent, 1, 1, "exponents -400..400 (one symbolic integer)") {
#ifdef VERIF_PLAIN_INT
    const R e = R(c.choose(801, "e") - 400);
#else
    const R e = c.integer("e", -400, 400);
#endif
    const std::string s = unc::internal::format_exp(integer<R>(e));
    c.truth("begins with a sign", s.size() >= 2 && (s[0] == '+' || s[0] == '-'));
    if (s.size() < 2) return;
    Numeral<R> a(s.substr(1));
    c.truth("a whole number follows", a.ok && !a.dot && !a.neg);
    c.eq("value", s[0] == '-' ? -a.coef : a.coef, e);
}

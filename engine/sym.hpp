// sym.hpp -- symbolic scalar type used to execute the templates of
// uncertainties-cpp symbolically, from source.
//
// `sym::Sym` is a drop-in numerical type ("Real").  Every arithmetic operation
// builds an exact-real term; every comparison whose outcome is not decided by
// the path condition forks the execution (see engine.hpp).
#ifndef VERIF_SYM_HPP
#define VERIF_SYM_HPP

#include <cmath>
#include <cstdlib>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <ostream>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <functional>
#include <algorithm>

namespace sym {

struct Node;   // polynomial term (hash-consed DAG)
struct Den;    // interned product of nonzero factors

enum Kind : unsigned char { K_CONST, K_FRAC, K_NAN, K_PINF, K_NINF };

class Sym;
namespace detail {
    bool is_token(long long v);
    Sym token_value(long long v);
}

class Sym {
public:
    Kind kind;
    double c;            // K_CONST: exact finite constant
    const Node *num;     // K_FRAC
    const Den *den;      // K_FRAC

    constexpr Sym() noexcept : kind(K_CONST), c(0), num(nullptr), den(nullptr) {}

    template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
    constexpr Sym(T x) noexcept
    : kind(x != x ? K_NAN
           : x > std::numeric_limits<double>::max() ? K_PINF
           : x < -std::numeric_limits<double>::max() ? K_NINF : K_CONST),
      c(x != x || x > std::numeric_limits<double>::max() || x < -std::numeric_limits<double>::max()
        ? 0.0 : static_cast<double>(x)), num(nullptr), den(nullptr) {}

    template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
    constexpr Sym(T x) noexcept : kind(K_CONST), c(static_cast<double>(x)), num(nullptr), den(nullptr) {
        if (!__builtin_is_constant_evaluated())
            if (detail::is_token(static_cast<long long>(x)))
                *this = detail::token_value(static_cast<long long>(x));
    }

    static Sym nan() { Sym s; s.kind = K_NAN; return s; }
    static Sym inf(int sign) { Sym s; s.kind = sign > 0 ? K_PINF : K_NINF; return s; }
    static Sym frac(const Node *n, const Den *d);

    bool fin() const { return kind == K_CONST || kind == K_FRAC; }

    Sym &operator+=(const Sym &o);
    Sym &operator-=(const Sym &o);
    Sym &operator*=(const Sym &o);
    Sym &operator/=(const Sym &o);
    Sym &operator++() { return *this += Sym(1); }
    Sym &operator--() { return *this -= Sym(1); }
    Sym operator++(int) { Sym t = *this; *this += Sym(1); return t; }
    Sym operator--(int) { Sym t = *this; *this -= Sym(1); return t; }
    Sym operator-() const;
    Sym operator+() const { return *this; }

    explicit operator bool() const;
    explicit operator int() const;
    explicit operator long() const;
    explicit operator long long() const { return static_cast<long long>(static_cast<long>(*this)); }
    explicit operator unsigned() const { return static_cast<unsigned>(static_cast<long>(*this)); }
    explicit operator unsigned long() const { return static_cast<unsigned long>(static_cast<long>(*this)); }
    explicit operator double() const;
    explicit operator float() const { return static_cast<float>(static_cast<double>(*this)); }
    explicit operator long double() const { return static_cast<long double>(static_cast<double>(*this)); }
};

// A second numerical type, distinct from Sym, to exercise type conversions.
class Sym2 : public Sym {
public:
    using Sym::Sym;
    constexpr Sym2() noexcept : Sym() {}
    Sym2(const Sym &s) noexcept : Sym(s) {}
};

Sym operator+(const Sym &a, const Sym &b);
Sym operator-(const Sym &a, const Sym &b);
Sym operator*(const Sym &a, const Sym &b);
Sym operator/(const Sym &a, const Sym &b);
bool operator<(const Sym &a, const Sym &b);
bool operator<=(const Sym &a, const Sym &b);
inline bool operator>(const Sym &a, const Sym &b) { return b < a; }
inline bool operator>=(const Sym &a, const Sym &b) { return b <= a; }
bool operator==(const Sym &a, const Sym &b);
bool operator!=(const Sym &a, const Sym &b);

std::ostream &operator<<(std::ostream &os, const Sym &x);

Sym sqrt(const Sym &x);   Sym cbrt(const Sym &x);
Sym exp(const Sym &x);    Sym exp2(const Sym &x);  Sym expm1(const Sym &x);
Sym log(const Sym &x);    Sym log2(const Sym &x);  Sym log10(const Sym &x); Sym log1p(const Sym &x);
Sym pow(const Sym &x, const Sym &y);
Sym hypot(const Sym &x, const Sym &y);
Sym sin(const Sym &x);    Sym cos(const Sym &x);   Sym tan(const Sym &x);
Sym asin(const Sym &x);   Sym acos(const Sym &x);  Sym atan(const Sym &x);
Sym atan2(const Sym &y, const Sym &x);
Sym sinh(const Sym &x);   Sym cosh(const Sym &x);  Sym tanh(const Sym &x);
Sym asinh(const Sym &x);  Sym acosh(const Sym &x); Sym atanh(const Sym &x);
Sym erf(const Sym &x);    Sym erfc(const Sym &x);
Sym abs(const Sym &x);    inline Sym fabs(const Sym &x) { return abs(x); }
Sym floor(const Sym &x);  Sym ceil(const Sym &x);  Sym trunc(const Sym &x);
Sym round(const Sym &x);  Sym rint(const Sym &x);  inline Sym nearbyint(const Sym &x) { return rint(x); }
Sym fmod(const Sym &x, const Sym &y);
Sym remainder(const Sym &x, const Sym &y);
Sym fmax(const Sym &x, const Sym &y);
Sym fmin(const Sym &x, const Sym &y);
inline Sym fdim(const Sym &x, const Sym &y) { return x > y ? x - y : Sym(0); }
inline Sym fma(const Sym &x, const Sym &y, const Sym &z) { return x * y + z; }
Sym copysign(const Sym &x, const Sym &y);
bool signbit(const Sym &x);
inline bool isnan(const Sym &x) { return x.kind == K_NAN; }
inline bool isinf(const Sym &x) { return x.kind == K_PINF || x.kind == K_NINF; }
bool isfinite(const Sym &x);
bool isnormal(const Sym &x);
// Eigen helpers
inline Sym conj(const Sym &x) { return x; }
inline Sym real(const Sym &x) { return x; }
inline Sym imag(const Sym &) { return Sym(0); }
inline Sym abs2(const Sym &x) { return x * x; }

Sym pi();
// uninterpreted function application (used by harnesses)
Sym uf(const char *name, const std::vector<Sym> &args);

} // namespace sym

// qualified calls like std::sqrt(x) in the code under test
namespace std {
    using ::sym::sqrt;  using ::sym::cbrt;  using ::sym::exp;  using ::sym::exp2;
    using ::sym::expm1; using ::sym::log;   using ::sym::log2; using ::sym::log10;
    using ::sym::log1p; using ::sym::pow;   using ::sym::hypot; using ::sym::sin;
    using ::sym::cos;   using ::sym::tan;   using ::sym::asin; using ::sym::acos;
    using ::sym::atan;  using ::sym::atan2; using ::sym::sinh; using ::sym::cosh;
    using ::sym::tanh;  using ::sym::asinh; using ::sym::acosh; using ::sym::atanh;
    using ::sym::erf;   using ::sym::erfc;  using ::sym::abs;  using ::sym::fabs;
    using ::sym::floor; using ::sym::ceil;  using ::sym::trunc; using ::sym::round;
    using ::sym::rint;  using ::sym::nearbyint; using ::sym::fmod; using ::sym::remainder;
    using ::sym::fmax;  using ::sym::fmin;  using ::sym::fdim; using ::sym::fma;
    using ::sym::copysign; using ::sym::signbit; using ::sym::isnan; using ::sym::isinf;
    using ::sym::isfinite; using ::sym::isnormal;

    template<> class numeric_limits<sym::Sym> {
    public:
        static constexpr bool is_specialized = true;
        static constexpr bool is_signed = true;
        static constexpr bool is_integer = false;
        static constexpr bool is_exact = false;
        static constexpr bool has_infinity = true;
        static constexpr bool has_quiet_NaN = true;
        static constexpr bool has_signaling_NaN = false;
        static constexpr bool is_iec559 = false;
        static constexpr bool is_bounded = true;
        static constexpr bool is_modulo = false;
        static constexpr int digits = 53;
        static constexpr int digits10 = 15;
        static constexpr int max_digits10 = 17;
        static constexpr int radix = 2;
        static constexpr int min_exponent = -1021;
        static constexpr int max_exponent = 1024;
        static constexpr int min_exponent10 = -307;
        static constexpr int max_exponent10 = 308;
        // the smaller one of double and long double: a quantity below it is below it in both replays
        static constexpr sym::Sym epsilon() noexcept { return sym::Sym((double)numeric_limits<long double>::epsilon()); }
        static constexpr sym::Sym min() noexcept { return sym::Sym(numeric_limits<double>::min()); }
        static constexpr sym::Sym denorm_min() noexcept { return sym::Sym(numeric_limits<double>::denorm_min()); }
        static constexpr sym::Sym max() noexcept { return sym::Sym(numeric_limits<double>::max()); }
        static constexpr sym::Sym lowest() noexcept { return sym::Sym(-numeric_limits<double>::max()); }
        static constexpr sym::Sym infinity() noexcept { return sym::Sym(numeric_limits<double>::infinity()); }
        static constexpr sym::Sym quiet_NaN() noexcept { return sym::Sym(numeric_limits<double>::quiet_NaN()); }
    };
    template<> class numeric_limits<sym::Sym2> : public numeric_limits<sym::Sym> {};
}

#endif

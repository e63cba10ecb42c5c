// mathspec.hpp -- the mathematical functions, their domains and their exact
// derivatives, stated independently of math.hpp.
#ifndef VERIF_MATHSPEC_HPP
#define VERIF_MATHSPEC_HPP
#include "common2.hpp"
#include <uncertainties/math.hpp>
#include <uncertainties/impl.hpp>

namespace spec {
using std::abs; using std::fmod; using std::remainder; using std::fmax; using std::fmin; using std::exp; using std::exp2;
using std::expm1; using std::log; using std::log10; using std::log2; using std::log1p; using std::pow; using std::sqrt;
using std::cbrt; using std::hypot; using std::sin; using std::cos; using std::tan; using std::asin; using std::acos;
using std::atan; using std::atan2; using std::sinh; using std::cosh; using std::tanh; using std::asinh; using std::acosh;
using std::atanh; using std::erf; using std::erfc; using std::trunc; using std::rint;

enum Fn1 { ABS, EXP, EXP2, EXPM1, LOG, LOG10, LOG2, LOG1P, SQRT, CBRT, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH,
           ASINH, ACOSH, ATANH, ERF, ERFC, NFN1 };
enum Fn2 { FMOD, REMAINDER, FMAX, FMIN, POW, HYPOT, ATAN2, NFN2 };
static const char *const name1[] = {"abs", "exp", "exp2", "expm1", "log", "log10", "log2", "log1p", "sqrt", "cbrt", "sin", "cos", "tan",
    "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc"};
static const char *const name2[] = {"fmod", "remainder", "fmax", "fmin", "pow", "hypot", "atan2"};

template<class U> U call1(int f, const U &x) {
    switch (f) {
    case ABS: return abs(x); case EXP: return exp(x); case EXP2: return exp2(x); case EXPM1: return expm1(x);
    case LOG: return log(x); case LOG10: return log10(x); case LOG2: return log2(x); case LOG1P: return log1p(x);
    case SQRT: return sqrt(x); case CBRT: return cbrt(x); case SIN: return sin(x); case COS: return cos(x); case TAN: return tan(x);
    case ASIN: return asin(x); case ACOS: return acos(x); case ATAN: return atan(x); case SINH: return sinh(x);
    case COSH: return cosh(x); case TANH: return tanh(x); case ASINH: return asinh(x); case ACOSH: return acosh(x);
    case ATANH: return atanh(x); case ERF: return erf(x); default: return erfc(x);
    }
}
template<class U> U call2(int f, const U &x, const U &y) {
    switch (f) {
    case FMOD: return fmod(x, y); case REMAINDER: return remainder(x, y); case FMAX: return fmax(x, y); case FMIN: return fmin(x, y);
    case POW: return pow(x, y); case HYPOT: return hypot(x, y); default: return atan2(x, y);
    }
}
// open domain of differentiability
template<class C, class R> void domain1(C &c, int f, const R &x) {
    switch (f) {
    case ABS: case CBRT: c.assume_rel(x, NE, R(0)); break;
    case LOG: case LOG10: case LOG2: case SQRT: c.assume_rel(x, GT, R(0)); break;
    case LOG1P: c.assume_rel(x, GT, R(-1)); break;
    case TAN: c.assume_rel(cos(x), NE, R(0)); break;
    case ASIN: case ACOS: case ATANH: c.assume_rel(x, LT, R(1)); c.assume_rel(x, GT, R(-1)); break;
    case ACOSH: c.assume_rel(x, GT, R(1)); break;
    default: break;
    }
}
template<class C, class R> void domain2(C &c, int f, const R &x, const R &y) {
    switch (f) {
    case FMOD: c.assume_rel(y, NE, R(0)); c.assume(x == R(0) || fmod(x, y) != R(0)); break;
    case REMAINDER: { c.assume_rel(y, NE, R(0)); R r = x / y - rint(x / y); c.assume_rel(r, LT, R(0.5)); c.assume_rel(r, GT, R(-0.5)); break; }
    case FMAX: case FMIN: c.assume_rel(x, NE, y); break;
    case POW: c.assume_rel(x, GT, R(0)); break;
    case HYPOT: c.assume_rel(x * x + y * y, GT, R(0)); break;
    case ATAN2: c.assume(x != R(0) || y > R(0)); break;
    default: break;
    }
}
template<class R> struct D1 { R d, h; };
template<class R> D1<R> deriv1(int f, const R &x) {
    const R one(1), two(2);
    switch (f) {
    case ABS: return {x > R(0) ? one : -one, R(0)};
    case EXP: case EXPM1: return {exp(x), exp(x)};
    case EXP2: { R l = log(two); return {exp2(x) * l, exp2(x) * l * l}; }
    case LOG: return {one / x, -one / (x * x)};
    case LOG10: { R l = log(R(10)); return {one / (x * l), -one / (x * x * l)}; }
    case LOG2: { R l = log(two); return {one / (x * l), -one / (x * x * l)}; }
    case LOG1P: return {one / (one + x), -one / ((one + x) * (one + x))};
    case SQRT: return {one / (two * sqrt(x)), -one / (R(4) * x * sqrt(x))};
    case CBRT: { R k = cbrt(x); return {one / (R(3) * k * k), -two / (R(9) * x * k * k)}; }
    case SIN: return {cos(x), -sin(x)};
    case COS: return {-sin(x), -cos(x)};
    case TAN: { R k = cos(x); return {one / (k * k), two * sin(x) / (k * k * k)}; }
    case ASIN: { R q = one - x * x, s = sqrt(q); return {one / s, x / (q * s)}; }
    case ACOS: { R q = one - x * x, s = sqrt(q); return {-one / s, -x / (q * s)}; }
    case ATAN: { R q = one + x * x; return {one / q, -two * x / (q * q)}; }
    case SINH: return {cosh(x), sinh(x)};
    case COSH: return {sinh(x), cosh(x)};
    case TANH: { R k = cosh(x); return {one / (k * k), -two * sinh(x) / (k * k * k)}; }
    case ASINH: { R q = one + x * x, s = sqrt(q); return {one / s, -x / (q * s)}; }
    case ACOSH: { R q = x * x - one, s = sqrt(q); return {one / s, -x / (q * s)}; }
    case ATANH: { R q = one - x * x; return {one / q, two * x / (q * q)}; }
    default: { // erf, erfc
        R k = two / sqrt(atan2(R(0), R(-1))) * exp(-x * x);
        if (f == ERFC) k = -k;
        return {k, -two * x * k};
    } }
}
template<class R> struct D2 { R dx, dy, dxx, dyy, dxy; };
template<class R> D2<R> deriv2(int f, const R &x, const R &y) {
    const R z(0), one(1), two(2);
    switch (f) {
    case FMOD: return {one, -trunc(x / y), z, z, z};
    case REMAINDER: return {one, -rint(x / y), z, z, z};
    case FMAX: if (x > y) return {one, z, z, z, z}; else return {z, one, z, z, z};
    case FMIN: if (x < y) return {one, z, z, z, z}; else return {z, one, z, z, z};
    case POW: {
        R p = pow(x, y), l = log(x);
        return {y * p / x, l * p, y * (y - one) * p / (x * x), l * l * p, p / x + y * l * p / x};
    }
    case HYPOT: {
        R h = hypot(x, y), h3 = h * h * h;
        return {x / h, y / h, y * y / h3, x * x / h3, -x * y / h3};
    }
    default: { // atan2(x, y) = angle of the point with ordinate x and abscissa y
        R q = x * x + y * y;
        return {y / q, -x / q, -two * x * y / (q * q), two * x * y / (q * q), (x * x - y * y) / (q * q)};
    } }
}
}
#endif

#include "common2.hpp"
#include <uncertainties/math.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/impl.hpp>
#include "arena.hpp"
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// run a reading operation on operands in write-protected memory; a first run on other operands may set up tables
template<class R, class F> static void reads(sym::Ctx<R> &c, const std::string &lab, F f) {
    arena::look();
    arena::lock();
    try { f(); } catch (const std::invalid_argument &) {} catch (...) { arena::unlock(); throw; }
    const int w = arena::unlock();
    c.truth(lab + ": operands not written", w == 0);
    c.truth(lab + ": no hidden state written", arena::changed().empty());
}
constexpr int NF = 30, NF2 = 26;
template<class R> static void first(const unc::UReal<R> &x, const unc::UReal<R> &y, const std::vector<unc::UReal<R>> &v, int op, sym::Ctx<R> &c) {
    using U = unc::UReal<R>;
    switch (op) {
    case 0: (void)x.n(); (void)nom(x); (void)x.isindep(); (void)x.indepid(); break;
    case 1: (void)x.s(); break;
    case 2: (void)sdev(x); break;
    case 3: (void)var(x); break;
    case 4: (void)cov(x, y); break;
    case 5: (void)corr(x, y); break;
    case 6: { U z = y; (void)z.grad(x); } break;
    case 7: (void)unary(x, R(1), c.in("d")); break;
    case 8: (void)binary(x, y, R(1), c.in("d"), c.in("e")); break;
    case 9: { std::vector<R> d; for (size_t i = 0; i < v.size(); ++i) d.push_back(c.in(S("d", int(i)))); (void)nary(v.begin(), v.end(), R(1), d.begin()); } break;
    case 10: (void)(x + y); break;
    case 11: (void)(x - y); break;
    case 12: (void)(x * y); break;
    case 13: (void)(x / y); break;
    case 14: (void)(-x); (void)(+x); break;
    case 15: (void)(x + R(1)); (void)(R(2) * x); break;
    case 16: (void)change_nom(x, R(2)); break;
    case 17: { unc::UReal<typename sym::Ctx<R>::Other> o = x; (void)o; } break;
    case 18: { U z = y; z += x; z -= x; z *= x; z /= x; } break;
    case 19: { U z; z = x; U w = z; (void)w.s(); } break;
    case 20: (void)unc::isfinite(x); (void)unc::isnormal(x); break;
    case 21: { std::vector<R> m(v.size() * v.size()); unc::cov_matrix(v.begin(), v.end(), m.begin()); (void)unc::cov_matrix<std::vector<R>>(v); } break;
    case 22: (void)unc::corr_matrix<std::vector<R>>(v); break;
    case 23: (void)unc::nom_vector<std::vector<R>>(v); break;
    case 24: (void)unc::abs(x); (void)unc::fmax(x, y); (void)unc::fmin(x, y); break;
    case 25: (void)unc::exp(x); (void)unc::sin(x); (void)unc::cos(x); (void)unc::atan(x); break;
    case 26: (void)unc::tanh(x); (void)unc::asinh(x); (void)unc::erf(x); (void)unc::sinh(x); break;
    case 27: (void)unc::hypot(x, y); (void)unc::atan2(x, y); break;
    case 28: { unc::Unary<R> f = [](const R &t) -> R { return t * t; }; (void)unc::uunary<R>(f, R(0.5))(x); } break;
    default: { U z = x; z.binary_assign(x, R(1), R(2), R(3)); z.binary_assign(y, R(1), R(2), R(3)); } break;
    }
}
template<class R, unc::Prop P> static void second(const unc::UReal2<R, P> &x, const unc::UReal2<R, P> &y, const std::vector<unc::UReal2<R, P>> &v, int op, sym::Ctx<R> &c) {
    using U = unc::UReal2<R, P>;
    switch (op) {
    case 0: (void)x.n(); (void)x.first_order_n(); (void)nom(x); (void)x.isindep(); (void)x.indepid(); break;
    case 1: (void)x.s(); (void)sdev(x); break;
    case 2: (void)var(x); (void)x.m(1); (void)x.m(2); (void)x.m(3); (void)x.m(4); break;
    case 3: (void)x.skew(); (void)x.kurt(); break;
    case 4: (void)cov(x, y); break;
    case 5: (void)corr(x, y); break;
    case 6: (void)x.grad(y); break;
    case 7: (void)x.hess(y, y); break;
    case 8: (void)unary(x, R(1), c.nonzero("d"), c.nonzero("h")); break;
    case 9: (void)binary(x, y, R(1), c.nonzero("d"), c.nonzero("e"), c.nonzero("h"), R(1), c.nonzero("q")); break;
    case 10: (void)(x + y); break;
    case 11: (void)(x - y); break;
    case 12: (void)(x * y); break;
    case 13: (void)(x / y); break;
    case 14: (void)(-x); (void)(+x); break;
    case 15: (void)(x + R(1)); (void)(R(2) * x); break;
    case 16: { unc::UReal2<typename sym::Ctx<R>::Other, P> o = x; (void)o; } break;
    case 17: { unc::UReal2<R, P == PM ? PE : PM> o(x); (void)o; } break;
    case 18: { U z = y; binary_assign(z, x, R(1), R(2), R(3), R(4), R(5), R(6)); } break;
    case 19: { U z; z = x; U w = z; (void)w.m(2); } break;
    case 20: (void)unc::isfinite(x); (void)unc::isnormal(x); break;
    case 21: { std::vector<R> m(v.size() * v.size()); unc::cov_matrix(v.begin(), v.end(), m.begin()); (void)unc::nom_vector<std::vector<R>>(v); } break;
    case 22: (void)unc::abs(x); (void)unc::fmax(x, y); (void)unc::fmin(x, y); break;
    case 23: (void)unc::exp(x); (void)unc::sin(x); (void)unc::tanh(x); (void)unc::erf(x); break;
    case 24: (void)unc::hypot(x, y); (void)unc::atan2(x, y); break;
    default: { unc::Unary<R> f = [](const R &t) -> R { return t * t; }; (void)unc::uunary2<R, P>(f, R(0.5))(x); } break;
    }
}
HARNESS(first_order, NF * 4, NF * nkinds1(2), "every operation that takes variables by const reference, pairs of operand kinds over 2 base variables (quick: 4 x 3 of 13 x 13), numbers symbolic") {
    constexpr int N = 2;
    const int op = conf % NF, kx = sym::thorough() ? conf / NF : (int[]){0, 1, 3, 8}[conf / NF];
    Base1<R, N> B(c, true);
    { auto x = make_op1<R, N>(c, B, 8, "x"), y = make_op1<R, N>(c, B, 3, "y"); std::vector<unc::UReal<R>> v{x.z, y.z}; try { first<R>(x.z, y.z, v, op, c); } catch (const std::invalid_argument &) {} }
    auto x = make_op1<R, N>(c, B, kx, "x"), y = make_op1<R, N>(c, B, sym::thorough() ? c.choose(nkinds1(N), "y") : (int[]){0, 2, 8}[c.choose(3, "y")], "y");
    arena::open();
    auto &X = arena::keep(x.z); auto &Y = arena::keep(y.z); auto &V = arena::keep(std::vector<unc::UReal<R>>{x.z, y.z});
    reads(c, S("operation ", op), [&] { first<R>(X, Y, V, op, c); });
    reads(c, S("same operand, operation ", op), [&] { first<R>(X, X, V, op, c); });
}
template<class R, unc::Prop P> static void second_order_run(sym::Ctx<R> &c, int op, int kx) {
    Base2<R, P, 2> B(c, true);
    { auto &x = B.b[0]; auto &y = B.b[1]; std::vector<unc::UReal2<R, P>> v{x, y}; try { second<R, P>(x, y, v, op, c); } catch (const std::invalid_argument &) {} }
    // (few questions fork when the moments are numbers)
    const bool roots = op == 1 || op == 3 || op == 5;
    auto x = make_op2<R, P, 2>(c, B, roots ? 1 : kx, "x", true), y = make_op2<R, P, 2>(c, B, roots ? 2 : (int[]){0, 2, NK2_2 - 1}[c.choose(3, "y")], "y", true);
    if (op == 13 || op == 24) { c.assume_rel(x.mean, GT, R(0)); c.assume_rel(y.mean, GT, R(0)); }
    arena::open();
    auto &X = arena::keep(x.z); auto &Y = arena::keep(y.z); auto &V = arena::keep(std::vector<unc::UReal2<R, P>>{x.z, y.z});
    reads(c, S("operation ", op), [&] { second<R, P>(X, Y, V, op, c); });
    reads(c, S("same operand, operation ", op), [&] { second<R, P>(X, X, V, op, c); });
}
HARNESS(second_order, NF2 * NK2_2, NF2 * NK2_2, "the same for second-order variables: 7 x 3 pairs of operand kinds over 2 base variables, modes alternating (deviation, skewness, kurtosis and correlation: fresh variables)") {
    if (conf % 2) second_order_run<R, PE>(c, conf % NF2, conf / NF2); else second_order_run<R, PM>(c, conf % NF2, conf / NF2);
}
#include "many.hpp"
#include "many2.hpp"
HARNESS(many_variables, NF * 2, NF * NPAT, "the first-order operations on operands that depend on 20 base variables (quick: 2 of 8 sharing patterns; correlation matrices left out)") {
    const int op = conf % NF, pat = sym::thorough() ? conf / NF : conf / NF ? 3 : 7;
    Many<R> B(c, 20, true);
    if (op == 22) { c.truth("left out", true); return; }
    if (op == 13 || op == 18 || op == 27) { c.assume_rel(c.in("x_m"), GT, R(0)); c.assume_rel(c.in("y_m"), GT, R(0)); }
    { auto x = make_many<R>(c, B, 4, 0, "x"), y = make_many<R>(c, B, 4, 1, "y"); std::vector<unc::UReal<R>> v{x.z, y.z}; try { first<R>(x.z, y.z, v, op, c); } catch (const std::invalid_argument &) {} }
    auto x = make_many<R>(c, B, pat, 0, "x"), y = make_many<R>(c, B, pat, 1, "y");
    arena::open();
    auto &X = arena::keep(x.z); auto &Y = arena::keep(y.z); auto &V = arena::keep(std::vector<unc::UReal<R>>{x.z, y.z, x.z, B.b[3], y.z, B.b[7]});
    reads(c, S("operation ", op), [&] { first<R>(X, Y, V, op, c); });
    reads(c, S("same operand, operation ", op), [&] { first<R>(X, X, V, op, c); });
}
HARNESS(many_variables2, NF2 * NPAT2, NF2 * NPAT2, "the second-order operations on operands that depend on 6 base variables in 6 sparsity patterns (deviation, skewness, kurtosis and correlation left out)") {
    constexpr unc::Prop P = PM; constexpr int N = 6;
    const int op = conf % NF2, pat = conf / NF2;
    if (op == 1 || op == 3 || op == 5) { c.truth("left out", true); return; }
    Base2<R, P, N> B(c, true, 1);
    auto x = make_many2<R, P, N>(c, B, pat, "x"), y = make_many2<R, P, N>(c, B, (pat + 1) % NPAT2, "y");
    if (op == 13 || op == 24) { c.assume_rel(x.mean, GT, R(0)); c.assume_rel(y.mean, GT, R(0)); }
    { std::vector<unc::UReal2<R, P>> v{x.z, y.z}; try { second<R, P>(x.z, y.z, v, op, c); } catch (const std::invalid_argument &) {} }
    arena::open();
    auto &X = arena::keep(x.z); auto &Y = arena::keep(y.z); auto &V = arena::keep(std::vector<unc::UReal2<R, P>>{x.z, y.z});
    reads(c, S("operation ", op), [&] { second<R, P>(X, Y, V, op, c); });
    reads(c, S("same operand, operation ", op), [&] { second<R, P>(X, X, V, op, c); });
}
HARNESS(monitor, 1, 1, "the monitor sees a write into an operand and a change of the identity counter") {
    unc::UReal<R> x(c.in("n"), c.pos("s")), y = x;
    y += x;
    arena::open();
    auto &X = arena::hold(y);
    arena::look();
    arena::lock(); X += x; const int w = arena::unlock();
    c.truth("a write is seen", w > 0);
    c.truth("no static state changed", arena::changed().empty());
    unc::UReal<R> z(x.n(), R(1));
    c.truth("the counter changed", !arena::changed().empty());
}

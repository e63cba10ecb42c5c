#include "common2.hpp"
#include <uncertainties/impl.hpp>

template<class R, unc::Prop P, int N> static void check_moments_of(sym::Ctx<R> &c, const Base2<R, P, N> &B, const Op2<R, P> &o) {
    auto q = expansion<R, P, N>(B, o);
    auto q2 = q.mul(q);
    R e1 = q.expect(B.mom), e2 = q2.expect(B.mom), e3 = q2.mul(q).expect(B.mom), e4 = q2.mul(q2).expect(B.mom);
    c.eq("mean correction m(1)", o.z.m(1), e1);
    c.eq("variance m(2)", o.z.m(2), e2 - e1 * e1);
    c.eq("var()", var(o.z), e2 - e1 * e1);
    c.eq("third central moment m(3)", o.z.m(3), e3 - R(3) * e1 * e2 + R(2) * e1 * e1 * e1);
    c.eq("fourth central moment m(4)", o.z.m(4), e4 - R(4) * e1 * e3 + R(6) * e1 * e1 * e2 - R(3) * e1 * e1 * e1 * e1);
    c.eq("mean", o.z.n(), P == unc::Prop::mean ? o.mean + e1 : o.mean - e1);
}
HARNESS(moments2, NK2_2, NK2_2, "every operand kind over 2 base variables; deviations, standardized moments 3..8, gradients and Hessians symbolic") {
    { Base2<R, unc::Prop::mean, 2> B(c); check_moments_of<R, unc::Prop::mean, 2>(c, B, make_op2<R, unc::Prop::mean, 2>(c, B, conf, "x")); }
    { Base2<R, unc::Prop::est, 2> B(c); check_moments_of<R, unc::Prop::est, 2>(c, B, make_op2<R, unc::Prop::est, 2>(c, B, conf, "y")); }
}
HARNESS(moments3, NK2_3, NK2_3, "every operand kind over 3 base variables (every sparsity pattern of the Hessian); unit deviations, moments 3..8, gradients and Hessians symbolic") {
    Base2<R, unc::Prop::mean, 3> B(c, true);
    check_moments_of<R, unc::Prop::mean, 3>(c, B, make_op2<R, unc::Prop::mean, 3>(c, B, conf, "x"));
}
// four variables: any four distinct indices appear in the fourth moment
HARNESS(moments4, 64, 64, "results over 4 base variables, all 64 sparsity patterns of the Hessian; unit deviations, moments 3..8, gradients symbolic, stored second derivatives symbolic nonzero") {
    Base2<R, unc::Prop::mean, 4> B(c, true);
    int k = -1;
    for (size_t i = 0; i < multis2(4).size(); ++i) if (multis2(4)[i].first == 15 && multis2(4)[i].second == conf) k = 1 + 8 + (int)i;
    check_moments_of<R, unc::Prop::mean, 4>(c, B, make_op2<R, unc::Prop::mean, 4>(c, B, k, "x", true));
}

#include "many2.hpp"
HARNESS(many_variables, 4 * NPAT2, 5 * NPAT2, "results over 5, 6, 8 and 12 (thorough: 17) base variables in 6 sparsity patterns; unit deviations, moments of 2 variables and some derivatives of each sort symbolic, the others numbers") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        if (conf % 2) { Base2<R, unc::Prop::mean, N> B(c, true, 2); check_moments_of<R, unc::Prop::mean, N>(c, B, make_many2<R, unc::Prop::mean, N>(c, B, conf % NPAT2, "x")); }
        else { Base2<R, unc::Prop::est, N> B(c, true, 2); check_moments_of<R, unc::Prop::est, N>(c, B, make_many2<R, unc::Prop::est, N>(c, B, conf % NPAT2, "x")); }
    };
    switch (conf / NPAT2) {
    case 0: go(std::integral_constant<int, 5>()); break;
    case 1: go(std::integral_constant<int, 6>()); break;
    case 2: go(std::integral_constant<int, 8>()); break;
    case 3: go(std::integral_constant<int, 12>()); break;
    default: if (conf % NPAT2 != 0 && conf % NPAT2 != 3) go(std::integral_constant<int, 17>()); else go(std::integral_constant<int, 9>()); break;
    }
}

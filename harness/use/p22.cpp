// printing has to compile with the other headers included before io.hpp
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/io.hpp>
#include <iostream>
namespace unc = uncertainties;
template<class R> void print(const unc::UReal<R> &x, const unc::UReal2<R, unc::Prop::mean> &y, const unc::UReal2<R, unc::Prop::est> &z) {
    std::cout << x << y << z << x.format() << unc::format(y, 2.5f) << format(z, 2.f, "+-");
}
template void print(const unc::UReal<double> &, const unc::UReal2<double, unc::Prop::mean> &, const unc::UReal2<double, unc::Prop::est> &);

// the finiteness and normality tests have to compile for both classes
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
namespace unc = uncertainties;
bool f(const unc::udouble &x, const unc::udouble2m &y, const unc::udouble2e &z) {
    return unc::isfinite(x) and unc::isfinite(y) and unc::isfinite(z) and unc::isnormal(x) and unc::isnormal(y) and unc::isnormal(z);
}

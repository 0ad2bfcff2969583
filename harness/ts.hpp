// Shared by the contracts about quantities with derivatives.
#pragma once
#include "ThermoFun/Common/ThermoScalar.hpp"
using namespace Reaktoro_; using namespace vf;
inline ThermoScalar quantity(const std::string& N, nat lo, nat hi, Status s = calculated, bool witherr = true) {
    double t = in(N + "_T", -1e3, 1e3), p = in(N + "_P", -1e3, 1e3), e = 0; if (witherr) e = in(N + "_err", 0, 10);
    double v = opaque(N, lo, hi, {{"T", N + "_T"}, {"P", N + "_P"}}); return ThermoScalar(v, t, p, e, {s, ""}); }
inline void TPvars() { in("T", 273, 2000); in("P", 1, 1000); }

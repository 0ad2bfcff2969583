// C07: the solvent function g and the effective Born coefficient come with their exact derivatives.
#include "hkf.hpp"
typedef FunctionG (*GF)(TT, PP, const PropertiesSolvent&);
static FunctionG g_of(int which, double T, double P, const PropertiesSolvent& w) { TT t(T); PP p(P); p /= 1e5; if (which == 0) { t -= 273.15; return gShok2(t, p, w); } return functionG(t, p, w); }
// Shock et al. (1992), equations (24)-(36); the two implementations keep different numbers of digits of a_f1 and a_f3
static double g_shock(int which, double T, double P, double rho) { double C = T - 273.15, b = P / 1e5, ag = -2.037662 + 5.747e-3 * C - 6.557892e-6 * C * C, bg = 6.107361 - 1.074377e-2 * C + 1.268348e-5 * C * C, r = rho / 1000; double g = ag * std::pow(r < 1 ? 1 - r : r - 1, bg);
    if (C > 155 && b < 1000) { double x = (C - 155) / 300, y = 1000 - b; g -= (std::pow(x, 4.8) + (which ? 36.6666 : 36.66666) * std::pow(x, 16)) * (-1.504956e-10 * y * y * y + (which ? 5.01799e-14 : 5.017997e-14) * y * y * y * y); } return g; }
static void one(int which, nat lo, nat hi) {
    double T = in("T", 273, 1200), P = in("P", 1e5, 5e8); fork_eq(false); auto w = solvent(lo, hi); FunctionG g = g_of(which, T, P, w); double v = g.g.val; eq("g", v, g_shock(which, T, P, w.density.val));
    eq("gT=dg/dT", g.gT.val, D(v, "T")); eq("gP=dg/dP", g.gP.val, D(v, "P")); eq("gTT=d2g/dT2", g.gTT.val, D(D(v, "T"), "T")); if (which == 1) { eq("gTP", g.gTP.val, D(D(v, "T"), "P")); eq("gPP", g.gPP.val, D(D(v, "P"), "P")); } cover("end"); }
CONTRACT(g_gems, "gShok2") { one(0, 300, 999); }
CONTRACT(g_gems_dense, "gShok2 above 1 g/cm3") { one(0, 1001, 1350); }
CONTRACT(g_reaktoro, "functionG") { one(1, 300, 999); }
CONTRACT(g_reaktoro_dense, "functionG above 1 g/cm3") { double T = in("T", 273, 1200), P = in("P", 1e5, 5e8); auto w = solvent(1001, 1350); FunctionG g = functionG(TT(T), PP(P / 1e5), w); eq("g", g.g.val, 0); eq("gT", g.gT.val, 0); eq("gP", g.gP.val, 0); eq("gTT", g.gTT.val, 0); eq("gTP", g.gTP.val, 0); eq("gPP", g.gPP.val, 0); }
// g as its contract leaves it
static FunctionG some_g() { FunctionG g; double tt = in("gTT", -1e-4, 1e-4), tp = in("gTP", -1e-10, 1e-10), pp = in("gPP", -1e-16, 1e-16), t = opaque("gT", -1e-2, 1e-2, {{"T", "gTT"}, {"P", "gTP"}}), p = opaque("gP", -1e-9, 1e-9, {{"T", "gTP"}, {"P", "gPP"}}), v = opaque("g", -0.5, 0.2, {{"T", "gT"}, {"P", "gP"}});
    g.g = quant(v, t, p); g.gT = quant(t, tt, tp); g.gP = quant(p, tp, pp); g.gTT = quant(tt); g.gTP = quant(tp); g.gPP = quant(pp); return g; }
static void omega(int which, int z, bool neutral, double wr, const char* sym) {
    TPvars(); fork_eq(false); FunctionG g = some_g(); Substance s = ion(z, wr, sym); ElectroPropertiesSubstance e = which ? speciesElectroStateHKF(g, s) : omeg92(g, s); double v = e.w.val;
    eq("wT=dw/dT", e.wT.val, D(v, "T")); eq("wP=dw/dP", e.wP.val, D(v, "P")); eq("wTT=d2w/dT2", e.wTT.val, D(D(v, "T"), "T")); if (which && !neutral) { eq("wTP", e.wTP.val, D(D(v, "T"), "P")); eq("wPP", e.wPP.val, D(D(v, "P"), "P")); }
    if (neutral) eq("w=wref", v, wr); else { double az = z < 0 ? -z : z, zz = z, rr = zz * zz / (wr / 1.66027e5 + zz / 3.082), re = rr + az * g.g.val; eq("w", v, 1.66027e5 * (zz * zz / re - zz / (3.082 + g.g.val))); eq("w carried ddt", e.w.ddt, e.wT.val); eq("w carried ddp", e.w.ddp, e.wP.val); } }
CONTRACT(omega_gems, "omeg92") { omega(0, charge(), false, in("wr", 1e4, 1e5), "Na+"); }
CONTRACT(omega_reaktoro, "speciesElectroStateHKF") { omega(1, charge(), false, in("wr", 1e4, 1e5), "Na+"); }
CONTRACT(omega_neutral_gems, "omeg92 of a neutral species") { omega(0, 0, true, in("wr", -1e5, 1e5), "CO2"); }
CONTRACT(omega_neutral_reaktoro, "speciesElectroStateHKF of a neutral species") { omega(1, 0, true, in("wr", -1e5, 1e5), "CO2"); }
CONTRACT(omega_proton_gems, "omeg92 of the hydrogen ion") { omega(0, 1, true, 0, "H+"); }
CONTRACT(omega_proton_reaktoro, "speciesElectroStateHKF of the hydrogen ion") { omega(1, 1, true, choose("wref") ? double(0) : in("wr", 1e4, 1e5), "H+"); }

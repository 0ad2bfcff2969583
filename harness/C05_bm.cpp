// C05: the Birch-Murnaghan model. BM_Volume is under contract (it returns the volume at which the
// equation of state has the pressure asked for); its callers are checked against that contract.
#include "subst.hpp"
#include "ThermoFun/ThermoModelsSubstance.h"
#include "ThermoFun/Common/Exception.h"
#include "ThermoFun/Substances/Solids/SolidBMGottschalk.h"
using namespace ThermoFun;
namespace bm { // the real text once more, with its helpers reachable under another name
#include "ThermoFun/Substances/Solids/SolidBMGottschalk.cpp"
}
typedef Reaktoro_::Pressure PP; typedef ThermoScalar S;
static S num(double x) { S s; s = x; return s; }
// the Birch-Murnaghan pressure at volume v (fourth order)
static double P_BM(double v, double vt, double k, double kp, double kpp) { double x = std::pow(vt / v, 2. / 3.) - 1; return 1.5 * k * (std::pow(vt / v, 7. / 3.) - std::pow(vt / v, 5. / 3.)) * (1 + 0.75 * (kp - 4) * x + 0.375 * (k * kpp + (kp - 4) * (kp - 3) + 35. / 9.) * x * x); }
CONTRACT(bm_integral, "BM_IntVol") {
    double v = in("v", 5, 100), vt = in("vt", 5, 100), k = in("k", 1e4, 1e6), kp = in("kp", 1, 10), kpp = in("kpp", -1e-3, 1e-3), P = in("P", 0.01, 1e4), Pr = in("Pr", 0.05, 0.2);
    double G = bm::ThermoFun::BM_IntVol(PP(P), Pr, num(vt), num(v), num(k), num(kp), num(kpp)).val; eq("dG/dv", D(G, "v"), P - P_BM(v, vt, k, kp, kpp)); eq("dG/dP", D(G, "P"), v); eq("at vt", bm::ThermoFun::BM_IntVol(PP(P), Pr, num(vt), num(vt), num(k), num(kp), num(kpp)).val, (P - Pr) * vt); }
CONTRACT(bm_newton_step, "BM_Volume: one iteration from an arbitrary volume (loop cut)") {
    double v = in("v", 5, 100), vt = in("vt", 5, 100), k = in("k", 1e4, 1e6), kp = in("kp", 2, 6), kpp = in("kpp", -1e-4, 1e-4), P = in("P", 0.01, 1e4);
    if (symbolic) { limit_branches(2); double w = bm::ThermoFun::BM_Volume(PP(P), num(vt), num(k), num(kp), num(kpp), num(v)).val; limit_branches(-1); double p = P_BM(v, vt, k, kp, kpp); eq("halved Newton step", (v - w) * D(p, "v") * 2, p - P); cover("step"); }
    else { double w = bm::ThermoFun::BM_Volume(PP(P), num(vt), num(k), num(kp), num(0), num(vt)).val; assume(w == w && w > 0.8 * vt && w < vt); chk("solved", std::fabs(P_BM(w, vt, k, kp, 0) - P) < 1e-4 * k); } }
// the contract of BM_Volume, for callers
static int calls; static std::vector<std::vector<double>> args; static bool stubbed = false;
namespace ThermoFun { auto BM_Volume(Reaktoro_::Pressure P, S vt, S kt0, S kp, S kpp, S vstart) -> S {
    if (!stubbed || !symbolic) return bm::ThermoFun::BM_Volume(P, vt, kt0, kp, kpp, vstart);
    std::string n = "v" + std::to_string(calls++); double t = in(n + "_T", -1, 1), p = in(n + "_P", -1, 1); S r; r = opaque(n, 5, 100, {{"T", n + "_T"}, {"P", n + "_P"}}); r.ddt = t; r.ddp = p; args.push_back({P.val, vt.val, kt0.val, kp.val, kpp.val, r.val}); return r; } }
CONTRACT(bm_model, "thermoPropertiesMinBMGottschalk, BirchMurnaghan, MinBMGottschalk::thermoProperties (BM_Volume by contract)") {
    double T = in("T", 250, 1500), P = in("P", 1e5, 1e10), Tr = in("Tr", 270, 300), Pr = in("Pr", 5e4, 9e4); Substance s = solid(Tr, Pr); std::vector<double> b(9, 0.); b[0] = in("b0", 1e-6, 1e-4); b[1] = in("b1", 1e-9, 1e-8); b[2] = in("b2", -1, 1); b[5] = in("b5", 1e5, 1e6); b[6] = in("b6", -20, -1); b[7] = in("b7", 2, 6); bool third = choose("third order"); b[8] = third ? double(0) : in("b8", -1e-4, -1e-6);
    ThermoParametersSubstance p; p.volume_BirchM_coeff = b; s.setThermoParameters(p); TPS o = incoming("i"); calls = 0; args.clear(); stubbed = true; TPS r = MinBMGottschalk(s).thermoProperties(T, P, o); stubbed = false;
    double G = r.gibbs_energy.val - o.gibbs_energy.val, H = r.enthalpy.val - o.enthalpy.val, SS = r.entropy.val - o.entropy.val, V = r.volume.val - o.volume.val; eq("G=H-TS", G, H - T * SS); U_and_A("UA", r, T, P); same_field("Cp kept", r.heat_capacity_cp, o.heat_capacity_cp); same_field("Cv kept", r.heat_capacity_cv, o.heat_capacity_cv);
    if (!symbolic) { auto m = [&](double t, double q) { TPS z = o; TPS y = MinBMGottschalk(s).thermoProperties(t, q, z); return y.gibbs_energy.val - o.gibbs_energy.val; }; double h = P * 1e-3; eqc("dG/dP=V", (m(T, P + h) - m(T, P - h)) / (2 * h) * 1e5, V, 1e-3); eqc("S=-dG/dT (0.1 K)", SS, -(m(T + 0.1, P) - m(T - 0.1, P)) / 0.2, 1e-3); return; }
    auto vt = [&](double t) { return s.thermoReferenceProperties().volume.val * 10 * std::exp(b[0] * (t - Tr) + b[1] / 2. * (t * t - Tr * Tr) + b[2] * (1 / Tr - 1 / t)); }; auto kt = [&](double t) { return b[5] + b[6] * (t - Tr); }; auto kpp = [&](double t) { return third ? -((35. / 9. + (3 - b[7]) * (4 - b[7])) / kt(t)) : b[8]; };
    double MPa = P / 1e6;
    auto has = [&](const std::string& n, double t, double q) -> double { for (auto& a : args) if (equal(a[0], q) && equal(a[1], vt(t))) { eq(n + ": kt", a[2], kt(t)); eq(n + ": kp", a[3], b[7]); eq(n + ": kpp", a[4], kpp(t)); return a[5]; } chk(n + ": the volume at this temperature and pressure is asked for", false); return 1; };
    double v = has("at T", T, MPa), vp = has("at T+0.1", T + 0.1, MPa), vm = has("at T-0.1", T - 0.1, MPa); eq("V", V, v / 10);
    eq("dG/dP-V = (P-P_BM(v)) dv/dP", D(G, "P") * 1e6 - V * 10, (MPa - P_BM(v, vt(T), kt(T), b[7], kpp(T))) * D(v, "P") * 1e6);
    auto g = [&](double t, double v) { return bm::ThermoFun::BM_IntVol(PP(MPa), Pr / 1e6, num(vt(t)), num(v), num(kt(t)), num(b[7]), num(kpp(t))).val; }; eq("G", G, g(T, v)); eq("S=-dG/dT (symmetric difference)", SS, -(g(T + 0.1, vp) - g(T - 0.1, vm)) / 0.2); cover("end");
}

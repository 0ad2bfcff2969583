// C09: the Zhang-Duan (2005) volume of water, and the ideal gas properties of water (Woolley).
#include "subst.hpp"
#include <functional>
#include "ThermoFun/ThermoModelsSolvent.h"
#include "Substances/Solvent/WaterZhangDuan2005.h"
#include "Substances/Solvent/WaterIdealGasWolley.h"
typedef ThermoScalar Q; typedef Reaktoro_::Temperature TT; typedef Reaktoro_::Pressure PP;
static Q qn(double v, double t, double p) { return Q(v, t, p, 0., {calculated, ""}); }
Q real_volume(TT, PP, Q) asm("vf_real_waterMolarVolume");
static std::function<Q(TT, PP, Q)> volume;
namespace ThermoFun { auto waterMolarVolume(Reaktoro_::Temperature T, Reaktoro_::Pressure P, Reaktoro_::ThermoScalar V0) -> Reaktoro_::ThermoScalar { return volume(T, P, V0); }
auto waterFugacityCoeff(Reaktoro_::Temperature T, Reaktoro_::Pressure P, Reaktoro_::ThermoScalar Vr, Reaktoro_::ThermoScalar V) -> Reaktoro_::ThermoScalar; }
static const nat za[] = {0, 3.49824207e-01, -2.91046273e+00, 2.00914688e+00, 1.12819964e-01, 7.48997714e-01, -8.73207040e-01, 1.70609505e-02, -1.46355822e-02, 5.79768283e-02, -8.41246372e-04, 4.95186474e-03, -9.16248538e-03, -1.00358152e-01, -1.82674744e-03}; static const nat zg = 1.05999998e-02, zR = 83.14467, zVc = 55.9480373, zTc = 647.25;
static double Z(double T, double V) { double t = T / double(zTc); auto k = [&](int i) { return za[i] + za[i + 1] / (t * t) + za[i + 2] / (t * t * t); }; return 1 + k(1) / V + k(4) / (V * V) + k(7) / (V * V * V * V) + k(10) / (V * V * V * V * V) + (za[13] / t / (V * V) + za[14] * t / (V * V * V * V)) * std::exp(-zg / (V * V)); }
// the loop's only state is the iterate, and the caller's first one is arbitrary
CONTRACT(zd_solution, "waterMolarVolume: an iterate that solves the equation of state") { fork_eq(false); double T = in("T", 300, 2000), V = in("V", 0.25, 0.9), vt = in("Vt", -1, 1), vp = in("Vp", -1, 1), F = double(zR) * T * Z(T, V) / (V * zVc); assume(F > 0); PP p(F); limit_branches(3); Q r = real_volume(TT(T), p, qn(V, vt, vp));
    eq("the solution is returned", r.val, V); double FT = D(F, "T"), FV = D(F, "V"); eq("its temperature derivative at constant pressure", r.ddt, -FT / FV); eq("its pressure derivative", r.ddp, 1 / FV); cover("end"); }
CONTRACT(zd_step, "waterMolarVolume: any other iterate") { fork_eq(false); double T = in("T", 300, 2000), V = in("V", 0.25, 0.9); int k = choose("step", 4); nat st[] = {0.9e-8, -0.9e-8, 1e-3, -1e-3}; double e = double(st[k]), z = Z(T, V), dz = D(z, "V"), P = double(zR) * T * (z - e * dz) / (zVc * (V - e)); assume(P > 0);   // the pressure for which the Newton step is e
    PP p(P); limit_branches(6); Q r = real_volume(TT(T), p, qn(V, 0, 0)); if (k < 2) eq("accepted after a step below the tolerance", r.val, V - e); else chk("not accepted after a step above the tolerance", !equal(r.val, V - e)); cover("end"); }
CONTRACT(zd_fugacity, "waterFugacityCoeff") { double T = in("T", 300, 2000), V = in("V", 0.25, 0.9), z = Z(T, V), P = double(zR) * T * z / (V * zVc); PP p(P); Q r = waterFugacityCoeff(TT(T), p, qn(V, 0, 0), qn(V * zVc, 0, 0));
    // ln phi = integral of (Z-1)/P dP: its derivative along the isotherm
    eq("d ln(phi)/dV = (Z-1)/P dP/dV", D(r.val, "V"), (z - 1) / P * D(P, "V")); cover("end"); }
// a density quadratic in temperature and pressure: symmetric differences are exact on it, whatever their steps
struct Quad { double T, P, d, t, p, tt, tp, pp; int n = 0; };
static Quad quad(double P) { Quad q; q.T = in("T", 400, 2000); q.P = P; q.d = in("d0", 800, 1200); q.t = in("dT", -1, 1); q.p = in("dP", 1e-3, 1e-2); q.tt = in("dTT", -1e-3, 1e-3); q.tp = in("dTP", -1e-6, 1e-6); q.pp = in("dPP", -1e-8, 1e-8);
    return q; }
static void use(Quad& q) { q.n = 0; volume = [&q](TT T, PP P, Q) { ++q.n; double a = T.val - q.T, b = P.val - q.P, d = q.d + q.t * a + q.p * b + q.tt * a * a / 2 + q.pp * b * b / 2 + q.tp * a * b, da = q.t + q.tt * a + q.tp * b, db = q.p + q.pp * b + q.tp * a, m = double(18.015268) * 1000 / zVc;
        le("temperatures within 1% of the query's", std::fabs(a), q.T * 0.01); le("pressures within 1% of the query's", std::fabs(b), q.P * 0.01); double v = m / d; return qn(v, -v / d * (da * T.ddt + db * P.ddt), -v / d * (da * T.ddp + db * P.ddp)); }; }
static void density_is(const Quad& q, const PropertiesSolvent& r) { eq("density", r.density.val, q.d); eq("density.ddt", r.density.ddt, q.t); eq("density.ddp per Pa", r.density.ddp, q.p * 1e-5); eq("density_T", r.densityT.val, q.t); eq("density_TT", r.densityTT.val, q.tt); eq("density_P per Pa", r.densityP.val, q.p * 1e-5); eq("density_PP per Pa squared", r.densityPP.val, q.pp * 1e-10);
    eq("density_P.ddp", r.densityP.ddp, q.pp * 1e-10); eq("density_T.ddp", r.densityT.ddp, q.tp * 1e-5); eq("density_P.ddt", r.densityP.ddt, q.tp * 1e-5); eq("Alpha", r.Alpha.val, -q.t / q.d); eq("Beta", r.Beta.val, q.p * 1e-5 / q.d); eq("dAldT", r.dAldT.val, -q.tt / q.d + q.t * q.t / q.d / q.d); cover("end"); }
CONTRACT(zd_properties, "propertiesWaterZhangDuan2005") { Quad q = quad(in("P", 1e3, 3e5)); use(q); density_is(q, propertiesWaterZhangDuan2005(TT(q.T), PP(q.P))); }
CONTRACT(zd_class, "WaterZhangDuan2005::propertiesSolvent") { double P = in("P", 1e8, 3e10); Quad q = quad(P / 1e5); use(q); Substance s; density_is(q, WaterZhangDuan2005(s).propertiesSolvent(q.T, P, -1)); }
CONTRACT(zd_volume, "WaterZhangDuan2005::thermoPropertiesSubstance, waterDensityZhangDuan2005") { double P = in("P", 1e8, 3e10); Quad q = quad(P / 1e5); use(q); Substance s; TPS r = WaterZhangDuan2005(s).thermoPropertiesSubstance(q.T, P, -1); eq("volume in J/bar", r.volume.val, double(18.015268) / q.d * 100); eq("volume.ddt", r.volume.ddt, -r.volume.val / q.d * q.t); eq("volume.ddp per Pa", r.volume.ddp, -r.volume.val / q.d * q.p * 1e-5); eq("density", waterDensityZhangDuan2005(TT(q.T), PP(q.P)).val, q.d); cover("end"); }
CONTRACT(zd_limits, "WaterZhangDuan2005: outside its range of validity") { Quad q = quad(1000); use(q); Substance s; WaterZhangDuan2005 w(s); auto refused = [&](double T, double P) { int k = 0; try { w.propertiesSolvent(T, P, -1); } catch (std::exception&) { ++k; } try { w.thermoPropertiesSubstance(T, P, -1); } catch (std::exception&) { ++k; } return k == 2; }; volume = [](TT, PP, Q) { return qn(0.3, 0, 0); };
    chk("above 3 GPa", refused(1000, 3.01e10)); chk("below 100 MPa", refused(1000, 0.99e8)); chk("above 2000 C", refused(2274, 1e9)); chk("within", !refused(1000, 1e9)); cover("end"); }
CONTRACT(wolley, "waterIdealGas") { double T = in("T", 273, 2000); in("P", 1, 2); TPS r = waterIdealGas(TT(T), PP(1.)); double G = r.gibbs_energy.val, H = r.enthalpy.val, S = r.entropy.val, Cp = r.heat_capacity_cp.val, A = r.helmholtz_energy.val, U = r.internal_energy.val, R = 8.31451;
    eq("dG/dT = -S", D(G, "T"), -S); eq("G = H - TS", G, H - T * S); eq("Cp = dH/dT", Cp, D(H, "T")); eq("Cp = T dS/dT", Cp, T * D(S, "T")); eq("U = H - RT", U, H - R * T); eq("A = U - TS", A, U - T * S); eq("Cv = Cp - R", r.heat_capacity_cv.val, Cp - R); eq("Cv = dU/dT", r.heat_capacity_cv.val, D(U, "T"));
    for (auto& [n, x] : fields()) if (n != "V") eq(n + ".ddt", (r.*x).ddt, D((r.*x).val, "T")); cover("end"); }

// C04: heat capacity integration gives mutually consistent H, S, G and Cp.
#include "ts.hpp"
#include "ThermoFun/Substance.h"
#include "ThermoFun/ThermoProperties.h"
#include "ThermoFun/ThermoParameters.h"
#include "ThermoFun/GlobalVariables.h"
#include "ThermoFun/Substances/EmpiricalCpIntegration.h"
#include "ThermoFun/Substances/StandardEntropyCpIntegration.h"
using namespace ThermoFun;
typedef Reaktoro_::Temperature TT; typedef Reaktoro_::Pressure PP;
static ThermoScalar constant(const char* n) { ThermoScalar x; x = in(n, -1e6, 1e6); return x; }
static ThermoPropertiesSubstance refs() { ThermoPropertiesSubstance r; r.gibbs_energy = constant("Gr"); r.enthalpy = constant("Hr"); r.entropy = constant("Sr"); r.heat_capacity_cp = constant("Cpr"); r.volume = constant("Vr"); return r; }
static std::vector<double> coeffs(const std::string& n, int k) { std::vector<double> v; for (int i = 0; i < k; ++i) { static const nat e[16] = {0, 1, -2, -.5, 2, 3, 4, -3, -1, .5, 0, 0, 0, 0, 0, 0}; nat m = 1e3; for (nat k = e[i]; k > 0; k -= 1) m /= k < 1 ? 20 : 400; for (nat k = e[i]; k < 0; k += 1) m *= k > -1 ? 20 : 400; v.push_back(in(n + std::to_string(i), -m, m)); } return v; }
static double poly(const std::vector<double>& a, double T) {
    static const double ex[10][2] = {{0,1},{1,1},{-2,1},{-1,2},{2,1},{3,1},{4,1},{-3,1},{-1,1},{1,2}}; double s = 0;
    for (size_t i = 0; i < a.size() && i < 10; ++i) { double e = ex[i][0] / ex[i][1]; s = s + a[i] * std::pow(T, e); } return s; }
static void derivatives(const std::string& n, const ThermoPropertiesSubstance& r, double T) {
    eq(n + ".dG/dT=-S", D(r.gibbs_energy.val, "T"), -r.entropy.val); eq(n + ".dH/dT=Cp", D(r.enthalpy.val, "T"), r.heat_capacity_cp.val); eq(n + ".dS/dT=Cp/T", D(r.entropy.val, "T"), r.heat_capacity_cp.val / T);
    eq(n + ".G.ddt", r.gibbs_energy.ddt, D(r.gibbs_energy.val, "T")); eq(n + ".H.ddt", r.enthalpy.ddt, D(r.enthalpy.val, "T")); eq(n + ".S.ddt", r.entropy.ddt, D(r.entropy.val, "T")); eq(n + ".Cp.ddt", r.heat_capacity_cp.ddt, D(r.heat_capacity_cp.val, "T"));
    for (const ThermoScalar* x : {&r.gibbs_energy, &r.enthalpy, &r.entropy, &r.heat_capacity_cp}) eq(n + ".ddp", x->ddp, 0); }
static void untouched(const std::string& n, const ThermoPropertiesSubstance& r, const ThermoPropertiesSubstance& o, bool cpv) {
    eq(n + ".U", r.internal_energy.val, o.internal_energy.val); eq(n + ".A", r.helmholtz_energy.val, o.helmholtz_energy.val); eq(n + ".Cv", r.heat_capacity_cv.val, o.heat_capacity_cv.val); }
static Substance base(double Tr) { Substance s; s.setSymbol("X"); s.setReferenceT(Tr); s.setThermoReferenceProperties(refs());
    return s; }

CONTRACT(one_interval, "thermoPropertiesEmpCpIntegration") {
    double Tr = in("Tr", 250, 350), T = in("T", 200, 2000), P = in("P", 1, 5000); Substance s = base(Tr);
    static const int lens[] = {10, 9, 5, 1, 11, 16, 0}; int len = lens[choose("ncoef", 7)]; ThermoParametersSubstance pr; pr.Cp_coeff = {coeffs("a", len)};
    switch (choose("interval", 4)) { case 0: pr.temperature_intervals = {{in("L", 100, 200), in("U", 2000, 3000)}}; cover("inside"); break; case 1: pr.temperature_intervals = {{}}; break; case 2: break;
        case 3: pr.temperature_intervals = {{in("L1", 100, 2000), in("U1", 2000, 3000)}}; cover("maybe below"); break; }
    s.setThermoParameters(pr); auto r = thermoPropertiesEmpCpIntegration(TT(T), PP(P), s);
    derivatives("T", r, T); eq("Cp", r.heat_capacity_cp.val, poly(pr.Cp_coeff[0], T)); untouched("kept", r, s.thermoProperties(), false); eq("V", r.volume.val, 0);
    auto r0 = thermoPropertiesEmpCpIntegration(TT(Tr), PP(P), s); auto f = s.thermoReferenceProperties();
    eq("G(Tr)", r0.gibbs_energy.val, f.gibbs_energy.val); eq("H(Tr)", r0.enthalpy.val, f.enthalpy.val); eq("S(Tr)", r0.entropy.val, f.entropy.val); cover("end");
}
// n contiguous intervals with transitions between them; T anywhere, including the bounds themselves
static void several(int n, const std::vector<int>& lens, bool trans) {
    double Tr = in("Tr", 250, 350), T = in("T", 200, 2500), P = in("P", 1, 5000); Substance s = base(Tr); ThermoParametersSubstance pr;
    std::vector<double> b = {in("b0", 100, 250)}; for (int i = 1; i < n; ++i) b.push_back(in("b" + std::to_string(i), 400 * i, 400 * i + 300)); b.push_back(in("b" + std::to_string(n), 1800, 2300));
    for (int i = 0; i < n; ++i) { pr.temperature_intervals.push_back({b[i], b[i + 1]}); pr.Cp_coeff.push_back(coeffs("a" + std::to_string(i) + "_", lens[i])); }
    std::vector<std::vector<double>> d; for (int i = 1; i < n; ++i) { std::string k = std::to_string(i); d.push_back({in("dS" + k, -100, 100), in("dH" + k, -1e5, 1e5), in("dV" + k, -10, 10)});
        if (trans) pr.phase_transition_prop.push_back({b[i], d.back()[0], d.back()[1], d.back()[2]}); else { pr.phase_transition_prop.push_back({b[i]}); d.back() = {0, 0, 0}; } }
    s.setThermoParameters(pr); auto r = thermoPropertiesEmpCpIntegration(TT(T), PP(P), s);
    int k = 0; for (int i = 1; i < n; ++i) if (b[i] <= T) k = i; cover("interval" + std::to_string(k));
    derivatives("T", r, T); eq("Cp", r.heat_capacity_cp.val, poly(pr.Cp_coeff[k], T)); double V = 0; for (int i = 0; i < k; ++i) V = V + d[i][2]; eq("V", r.volume.val, V); untouched("kept", r, s.thermoProperties(), false);
    // across each bound: the substance truncated to the intervals below it, evaluated at the bound, against the full one at the bound
    for (int i = 1; i < n; ++i) { ThermoParametersSubstance q = pr; q.temperature_intervals.resize(i); q.Cp_coeff.resize(i); q.phase_transition_prop.resize(i - 1); Substance t = base(Tr); t.setThermoParameters(q); std::string N = "bound" + std::to_string(i);
        auto lo = thermoPropertiesEmpCpIntegration(TT(b[i]), PP(P), t), hi = thermoPropertiesEmpCpIntegration(TT(b[i]), PP(P), s);
        eq(N + ".dS", hi.entropy.val - lo.entropy.val, d[i - 1][0]); eq(N + ".dH", hi.enthalpy.val - lo.enthalpy.val, d[i - 1][1]); eq(N + ".dV", hi.volume.val - lo.volume.val, d[i - 1][2]); eq(N + ".G continuous", hi.gibbs_energy.val, lo.gibbs_energy.val);
        eq(N + ".Cp below", lo.heat_capacity_cp.val, poly(pr.Cp_coeff[i - 1], b[i])); eq(N + ".Cp above", hi.heat_capacity_cp.val, poly(pr.Cp_coeff[i], b[i])); }
    auto r0 = thermoPropertiesEmpCpIntegration(TT(Tr), PP(P), s); auto f = s.thermoReferenceProperties();
    eq("G(Tr)", r0.gibbs_energy.val, f.gibbs_energy.val); eq("H(Tr)", r0.enthalpy.val, f.enthalpy.val); eq("S(Tr)", r0.entropy.val, f.entropy.val); cover("end");
}
CONTRACT(two_intervals, "thermoPropertiesEmpCpIntegration") { several(2, choose("short_last") ? std::vector<int>{10, 5} : choose("short_first") ? std::vector<int>{4, 10} : std::vector<int>{10, 10}, choose("transition")); }
CONTRACT(three_intervals, "thermoPropertiesEmpCpIntegration") { several(3, choose("mixed") ? std::vector<int>{10, 3, 8} : std::vector<int>{10, 10, 10}, true); }
CONTRACT(four_intervals, "thermoPropertiesEmpCpIntegration") { several(4, {10, 10, 10, 10}, true); }
CONTRACT(missing_transitions, "thermoPropertiesEmpCpIntegration with fewer transitions than interval bounds") {
    double Tr = in("Tr", 250, 350), T = in("T", 1300, 1700); Substance s = base(Tr); ThermoParametersSubstance pr; double b0 = in("b0", 100, 250), b1 = in("b1", 400, 700), b2 = in("b2", 800, 1200), b3 = in("b3", 1800, 2000);
    pr.temperature_intervals = {{b0, b1}, {b1, b2}, {b2, b3}}; pr.Cp_coeff = {coeffs("a", 3), coeffs("c", 3), coeffs("d", 3)}; double dS = in("dS", -10, 10), dH = in("dH", -10, 10); pr.phase_transition_prop = {{b1, dS, dH}}; s.setThermoParameters(pr);
    auto r = thermoPropertiesEmpCpIntegration(TT(T), PP(1.), s); derivatives("T", r, T); eq("V", r.volume.val, 0);
}
CONTRACT(no_transition_data, "thermoPropertiesEmpCpIntegration over two intervals without transition data") {
    double Tr = in("Tr", 250, 350), T = in("T", 800, 1700); Substance s = base(Tr); ThermoParametersSubstance pr; double b0 = in("b0", 100, 250), b1 = in("b1", 400, 700), b2 = in("b2", 1800, 2000);
    pr.temperature_intervals = {{b0, b1}, {b1, b2}}; pr.Cp_coeff = {coeffs("a", 3), coeffs("c", 3)}; s.setThermoParameters(pr); bool thrown = false;
    try { thermoPropertiesEmpCpIntegration(TT(T), PP(1.), s); } catch (std::exception&) { thrown = true; } chk("reported", thrown);
}
CONTRACT(gap, "thermoPropertiesEmpCpIntegration with a gap between intervals or outside all of them") {
    double Tr = in("Tr", 250, 350), T = in("T", 50, 3000); Substance s = base(Tr); ThermoParametersSubstance pr; double b0 = in("b0", 100, 250), b1 = in("b1", 400, 700), b2 = in("b2", 800, 1200), b3 = in("b3", 1800, 2000);
    pr.temperature_intervals = {{b0, b1}, {b2, b3}}; pr.Cp_coeff = {coeffs("a", 10), coeffs("c", 10)}; pr.phase_transition_prop = {{b2, in("dS", -10, 10), in("dH", -10, 10)}}; s.setThermoParameters(pr);
    auto r = thermoPropertiesEmpCpIntegration(TT(T), PP(1.), s); derivatives("T", r, T); int k = b2 <= T; eq("Cp", r.heat_capacity_cp.val, poly(pr.Cp_coeff[k], T)); cover(k ? "above" : "below");
}
CONTRACT(constant_cp, "thermoPropertiesEntropyCpIntegration") {
    double Tr = in("Tr", 250, 350), T = in("T", 200, 2000), P = in("P", 1, 5000); Substance s = base(Tr); auto f = s.thermoReferenceProperties();
    auto r = thermoPropertiesEntropyCpIntegration(TT(T), PP(P), s); derivatives("T", r, T); eq("Cp", r.heat_capacity_cp.val, f.heat_capacity_cp.val); untouched("kept", r, s.thermoProperties(), false);
    auto r0 = thermoPropertiesEntropyCpIntegration(TT(Tr), PP(P), s); eq("G(Tr)", r0.gibbs_energy.val, f.gibbs_energy.val); eq("H(Tr)", r0.enthalpy.val, f.enthalpy.val); eq("S(Tr)", r0.entropy.val, f.entropy.val); cover("end");
}
CONTRACT(entropy_only, "thermoPropertiesEntropyCpIntegration without a heat capacity") {
    double Tr = in("Tr", 250, 350), T = in("T", 200, 2000); Substance s = base(Tr); auto f = s.thermoReferenceProperties(); f.heat_capacity_cp = ThermoScalar(); s.setThermoReferenceProperties(f);
    auto r = thermoPropertiesEntropyCpIntegration(TT(T), PP(1.), s); eq("G", r.gibbs_energy.val, f.gibbs_energy.val - f.entropy.val * (T - Tr)); eq("dG/dT", D(r.gibbs_energy.val, "T"), -r.entropy.val); eq("H", r.enthalpy.val, f.enthalpy.val); eq("S", r.entropy.val, f.entropy.val); eq("G.ddt", r.gibbs_energy.ddt, -r.entropy.val); eq("S.ddt", r.entropy.ddt, 0); eq("H.ddt", r.enthalpy.ddt, 0);
}

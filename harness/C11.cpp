// C11: whichever temperature function describes logK, the returned properties are those of that one function.
#include "subst.hpp"
#define private public   // the conversions are the class's own business; their contracts are stated here
#include "ThermoFun/Reaction.h"
#undef private
#include "ThermoFun/ThermoModelsReaction.h"
typedef ThermoPropertiesReaction TPR; typedef MethodCorrT_Thrift M; typedef ThermoScalar TPR::* F;
static double lnx(double x) { return std::log(x); }
static const nat LGLN = 2.302585093;   // the library's ln 10
static double Rln10() { return R_CONSTANT * LGLN; }
static std::vector<double> coef(const std::string& n, int k) { std::vector<double> v; for (int i = 0; i < k; ++i) v.push_back(in(n + std::to_string(i), -100, 100)); return v; }
// logK of the seven-term function and the heat capacity of the five-term one
static double logK(const std::vector<double>& a, double T) { double r = 0; double t[] = {1, T, 1 / T, lnx(T), 1 / (T * T), T * T, 1 / std::sqrt(T)}; for (size_t i = 0; i < a.size() && i < 7; ++i) r += a[i] * t[i]; return r; }
static double heat(const std::vector<double>& c, double T) { double r = 0; double t[] = {1, T, 1 / (T * T), 1 / std::sqrt(T), T * T}; for (size_t i = 0; i < c.size() && i < 5; ++i) r += c[i] * t[i]; return r; }
static Reaction reaction(double Tr, const std::vector<double>& a, const std::vector<double>& c, TPR ref) { Reaction r; r.setSymbol("R"); r.setReferenceT(Tr); r.setReferenceP(1e5); auto p = r.thermoParameters(); p.reaction_logK_fT_coeff = a; p.reaction_Cp_fT_coeff = c; r.setThermoParameters(p); r.setThermoReferenceProperties(ref); return r; }
static void consistent(const TPR& r, double T, double P) {
    double l = r.log_equilibrium_constant.val, k = r.ln_equilibrium_constant.val, G = r.reaction_gibbs_energy.val, H = r.reaction_enthalpy.val, S = r.reaction_entropy.val, Cp = r.reaction_heat_capacity_cp.val, V = r.reaction_volume.val;
    eqc("lnK=ln10 log10K", k, l * std::log(double(10)), 1e-8); eq("G=-RT lnK", G, -R_CONSTANT * T * k); eq("G=H-TS", G, H - T * S); eqz("H=RT2 dlnK/dT", H - R_CONSTANT * T * T * D(k, "T"), H); eqz("Cp=dH/dT", Cp - D(H, "T"), Cp); eq("S=-dG/dT", S, -D(G, "T"));
    eq("U=H-PV", r.reaction_internal_energy.val, H - P / 1e5 * V); eq("A=U-TS", r.reaction_helmholtz_energy.val, r.reaction_internal_energy.val - T * S);
    auto own = [&](const std::string& n, const ThermoScalar& a) { eq(n + ".ddt is d/dT", a.ddt, D(a.val, "T")); eq(n + ".ddp is zero", a.ddp, 0); }; own("lnK", r.ln_equilibrium_constant); own("log10K", r.log_equilibrium_constant); own("G", r.reaction_gibbs_energy); own("S", r.reaction_entropy); own("H", r.reaction_enthalpy); own("Cp", r.reaction_heat_capacity_cp);
    for (auto x : {&TPR::log_equilibrium_constant, &TPR::ln_equilibrium_constant, &TPR::reaction_gibbs_energy, &TPR::reaction_enthalpy, &TPR::reaction_entropy, &TPR::reaction_heat_capacity_cp}) chk("what is computed is defined", (r.*x).sta.first != notdefined); cover("end"); }
static TPR run(Reaction q, double T, double P, M::type m) { return Reaction_LogK_fT(q).thermoProperties(T, P, m); }
static double temp() { return in("T", 250, 1500); }
static M::type full() { return choose("LGX") ? M::CTM_LGX : M::CTM_LGK; }
// reference values that belong to one reaction
struct Ref { TPR r; double H, S, G, K, Cp; };
static Ref reference(double Tr) { Ref f; f.H = in("Hr", -1e5, 1e5); f.S = in("Sr", -300, 300); f.Cp = in("Cpr", -300, 300); f.G = f.H - Tr * f.S; f.K = -f.G / (Rln10() * Tr); f.r.reaction_volume = constant("Vr", 0.5, 50); return f; }
static void set(ThermoScalar& x, double v) { x = ThermoScalar(v, 0., 0., 0., {calculated, ""}); }
static void all(Ref& f) { set(f.r.reaction_enthalpy, f.H); set(f.r.reaction_entropy, f.S); set(f.r.reaction_gibbs_energy, f.G); set(f.r.log_equilibrium_constant, f.K); set(f.r.ln_equilibrium_constant, f.K * LGLN); set(f.r.reaction_heat_capacity_cp, f.Cp); }
static void at_reference(const TPR& r, const Ref& f, bool cp) { eq("lgK at Tr", r.log_equilibrium_constant.val, f.K); eq("G at Tr", r.reaction_gibbs_energy.val, f.G); eq("H at Tr", r.reaction_enthalpy.val, f.H); eq("S at Tr", r.reaction_entropy.val, f.S); if (cp) eq("Cp at Tr", r.reaction_heat_capacity_cp.val, f.Cp); }

CONTRACT(logK_coefficients, "thermoPropertiesReaction_LogK_fT with logK=f(T)") {
    double T = temp(), P = in("P", 1e5, 5e8), Tr = in("Tr", 280, 320); auto a = coef("A", choose("terms", 8) + 1); Ref f = reference(Tr); if (choose("references")) all(f); TPR r = run(reaction(Tr, a, {}, f.r), T, P, full());
    eq("log10K is the function given", r.log_equilibrium_constant.val, logK(a, T)); consistent(r, T, P); eq("V", r.reaction_volume.val, f.r.reaction_volume.val); }
CONTRACT(heat_capacity_coefficients, "thermoPropertiesReaction_LogK_fT with Cp=f(T)") {
    double T = temp(), P = in("P", 1e5, 5e8), Tr = in("Tr", 280, 320); auto c = coef("C", choose("terms", 5) + 1); Ref f = reference(Tr); int given = choose("references", 4); all(f); if (given == 1) f.r.reaction_gibbs_energy = f.r.log_equilibrium_constant = ThermoScalar(); if (given == 2) f.r.reaction_enthalpy = ThermoScalar(); if (given == 3) f.r.reaction_entropy = f.r.reaction_gibbs_energy = ThermoScalar();
    M::type m = full(); TPR r = run(reaction(Tr, {}, c, f.r), T, P, m); consistent(r, T, P); eq("Cp is the function given", r.reaction_heat_capacity_cp.val, heat(c, T)); at_reference(run(reaction(Tr, {}, c, f.r), Tr, P, m), f, false); }
CONTRACT(both_coefficients, "thermoPropertiesReaction_LogK_fT with logK=f(T) and the matching Cp=f(T)") {
    double T = temp(), P = in("P", 1e5, 5e8), Tr = in("Tr", 280, 320); auto a = coef("A", 7); double k = Rln10(); TPR r = run(reaction(Tr, a, {k * a[3], 2 * k * a[1], 2 * k * a[4], -k * a[6] / 4, 6 * k * a[5]}, TPR()), T, P, full()); eq("log10K is the function given", r.log_equilibrium_constant.val, logK(a, T)); consistent(r, T, P); }
CONTRACT(no_coefficients, "thermoPropertiesReaction_LogK_fT without coefficients") { TPvars(); bool t = false; try { run(reaction(298.15, {}, {}, TPR()), temp(), in("P", 1e5, 5e8), full()); } catch (std::exception&) { t = true; } chk("reported", t); }
// extrapolations from the reference values; which of them are given
static void extrapolate(M::type m, Ref f, double Tr, bool cp) { double T = temp(), P = in("P", 1e5, 5e8); Reaction q = reaction(Tr, {}, {}, f.r); consistent(run(q, T, P, m), T, P); at_reference(run(q, Tr, P, m), f, cp); }
static void energies(Ref& f, int given) { all(f); if (given == 1) f.r.reaction_gibbs_energy = ThermoScalar(); if (given == 2) f.r.log_equilibrium_constant = ThermoScalar(); }
CONTRACT(one_term_logK, "thermoPropertiesReaction_LogK_fT, logK constant") { double Tr = in("Tr", 280, 320); Ref f = reference(Tr); f.H = 0; f.Cp = 0; f.G = -Tr * f.S; f.K = f.S / Rln10(); energies(f, choose("given", 3)); int o = choose("omitted", 3); if (o) f.r.reaction_enthalpy = ThermoScalar(); if (o == 2) f.r.reaction_entropy = ThermoScalar(); extrapolate(M::CTM_EK0, f, Tr, true); double T = temp(); eq("logK constant", run(reaction(Tr, {}, {}, f.r), T, 1e5, M::CTM_EK0).log_equilibrium_constant.val, f.K); }
CONTRACT(one_term_G, "thermoPropertiesReaction_LogK_fT, G constant") { double Tr = in("Tr", 280, 320); Ref f = reference(Tr); f.S = 0; f.Cp = 0; f.G = f.H; f.K = -f.G / (Rln10() * Tr); energies(f, choose("given", 3)); int o = choose("omitted", 3); if (o) f.r.reaction_entropy = ThermoScalar(); if (o == 2) f.r.reaction_enthalpy = ThermoScalar(); extrapolate(M::CTM_EK1, f, Tr, true); double T = temp(); eq("G constant", run(reaction(Tr, {}, {}, f.r), T, 1e5, M::CTM_EK1).reaction_gibbs_energy.val, f.G); }
CONTRACT(two_term, "thermoPropertiesReaction_LogK_fT, two-term") { double Tr = in("Tr", 280, 320); Ref f = reference(Tr); f.Cp = 0; energies(f, choose("given", 3)); int o = choose("omitted", 3); if (o == 1) f.r.reaction_entropy = ThermoScalar(); if (o == 2) f.r.reaction_enthalpy = ThermoScalar(); extrapolate(M::CTM_EK2, f, Tr, true); double T = temp(); TPR r = run(reaction(Tr, {}, {}, f.r), T, 1e5, M::CTM_EK2); eq("H constant", r.reaction_enthalpy.val, f.H); eq("S constant", r.reaction_entropy.val, f.S); }
CONTRACT(three_term, "thermoPropertiesReaction_LogK_fT, three-term, determineMethod") { double Tr = in("Tr", 280, 320); Ref f = reference(Tr); energies(f, choose("given", 3)); int o = choose("omitted", 4); if (o == 1) f.r.reaction_entropy = ThermoScalar(); if (o == 2) f.r.reaction_enthalpy = ThermoScalar(); if (o == 3) f.r.reaction_heat_capacity_cp = ThermoScalar();
    extrapolate(M::CTM_EK3, f, Tr, o != 3); double T = temp(); TPR r = run(reaction(Tr, {}, {}, f.r), T, 1e5, M::CTM_EK3); eq("Cp constant", r.reaction_heat_capacity_cp.val, o == 3 ? double(0) : f.Cp); }
// with only the equilibrium constant known, or a zero enthalpy or entropy beside it, the three-term form falls back to a one-term form
CONTRACT(three_term_fallback, "thermoPropertiesReaction_LogK_fT, determineMethod") { double Tr = in("Tr", 280, 320), T = temp(); Ref f = reference(Tr); int k = choose("known", 3); f.Cp = 0; if (k != 2) { f.H = 0; f.G = -Tr * f.S; } else { f.S = 0; f.G = f.H; } f.K = -f.G / (Rln10() * Tr); if (choose("G given")) set(f.r.reaction_gibbs_energy, f.G); else set(f.r.log_equilibrium_constant, f.K); if (k == 1) set(f.r.reaction_enthalpy, f.H); if (k == 2) set(f.r.reaction_entropy, f.S);
    Reaction q = reaction(Tr, {}, {}, f.r); consistent(run(q, T, 1e5, M::CTM_EK3), T, 1e5); at_reference(run(q, Tr, 1e5, M::CTM_EK3), f, true); }
// --- coefficients derived from one description to another
static void same_function(const std::vector<double>& a, const std::vector<double>& c, double T) { double l = logK(a, T), H = Rln10() * T * T * D(l, "T"); eq("Cp of the logK function", heat(c, T), D(H, "T")); }
static void converted(const Reaction& q, const TPR& r, double Tr) { auto p = q.thermoParameters(); auto &a = p.reaction_logK_fT_coeff, &c = p.reaction_Cp_fT_coeff; double T = temp(), l = logK(a, T), H = Rln10() * T * T * D(l, "T"); chk("seven logK coefficients", a.size() == 7); chk("five heat capacity coefficients", c.size() == 5); same_function(a, c, T);
    double Hr = Rln10() * Tr * Tr * D(logK(a, Tr), "Tr"); eq("lgK at Tr", r.log_equilibrium_constant.val, logK(a, Tr)); eqc("lnK at Tr", r.ln_equilibrium_constant.val, logK(a, Tr) * std::log(double(10)), 1e-8); eq("H at Tr", r.reaction_enthalpy.val, Hr); eq("G at Tr", r.reaction_gibbs_energy.val, -Rln10() * Tr * logK(a, Tr)); eq("S at Tr", r.reaction_entropy.val, (Hr + Rln10() * Tr * logK(a, Tr)) / Tr); eq("Cp at Tr", r.reaction_heat_capacity_cp.val, heat(c, Tr)); cover("end"); }
CONTRACT(from_heat_capacity, "Reaction::convert_CpfT_to_logKfT") { double Tr = in("Tr", 280, 320); Ref f = reference(Tr); all(f); auto c = coef("C", 5); Reaction q = reaction(Tr, {}, c, f.r); TPR r = q.convert_CpfT_to_logKfT(); auto p = q.thermoParameters(); for (int i = 0; i < 5; ++i) eq("the heat capacity is kept", p.reaction_Cp_fT_coeff[i], c[i]); converted(q, r, Tr); eq("reference G kept", r.reaction_gibbs_energy.val, f.G); eq("reference H kept", r.reaction_enthalpy.val, f.H); eq("reference S kept", r.reaction_entropy.val, f.S); eq("reference lgK kept", r.log_equilibrium_constant.val, f.K); }
CONTRACT(from_heat_capacity_short, "Reaction::convert_CpfT_to_logKfT with too few coefficients") { TPvars(); Reaction q = reaction(in("Tr", 280, 320), {}, coef("C", choose("terms", 5)), TPR()); bool t = false; try { q.convert_CpfT_to_logKfT(); } catch (std::exception&) { t = true; } chk("reported", t); }
CONTRACT(from_logK, "Reaction::convert_logKfT_toCpfT") { double Tr = in("Tr", 280, 320); int n = choose("terms", 7) + 1; auto a = coef("A", n); Ref f = reference(Tr); Reaction q = reaction(Tr, a, {}, f.r); q.setMethod_T(M::CTM_LGK); TPR r = q.convert_logKfT_toCpfT(); auto p = q.thermoParameters(); for (int i = 0; i < 7; ++i) eq("the logK function is kept", p.reaction_logK_fT_coeff[i], i < n ? a[i] : double(0)); converted(q, r, Tr); eq("V kept", r.reaction_volume.val, f.r.reaction_volume.val); }
CONTRACT(coefficients_of_extrapolation, "Reaction::calc_logK_fT_coefficients") { double Tr = in("Tr", 280, 320), T = temp(); Ref f = reference(Tr); int k = choose("method", 4); M::type m[] = {M::CTM_EK0, M::CTM_EK1, M::CTM_EK2, M::CTM_EK3}; if (k == 0) { f.H = 0; f.G = -Tr * f.S; } if (k == 1) { f.S = 0; f.G = f.H; } if (k < 3) f.Cp = 0; f.K = -f.G / (Rln10() * Tr); all(f);
    Reaction q = reaction(Tr, {}, {}, f.r); q.setMethod_T(m[k]); auto a = q.calc_logK_fT_coefficients(); chk("seven coefficients", a.size() == 7); eq("the function of the extrapolation", logK(a, T), run(q, T, 1e5, m[k]).log_equilibrium_constant.val); eq("lgK at Tr", logK(a, Tr), f.K); cover("end"); }
CONTRACT(coefficients_given, "Reaction::calc_logK_fT_coefficients") { TPvars(); auto a = coef("A", choose("terms", 7) + 1); Reaction q = reaction(in("Tr", 280, 320), a, {}, TPR()); M::type m[] = {M::CTM_LGK, M::CTM_LGX}; q.setMethod_T(m[choose("method", 2)]); auto b = q.calc_logK_fT_coefficients(); chk("seven coefficients", b.size() == 7); for (size_t i = 0; i < 7; ++i) eq("given", b[i], i < a.size() ? a[i] : double(0)); }

// C22: the Akinfiev-Diamond, Holland-Powell and Anderson models of aqueous species against their own Gibbs energy.
#include "hkf.hpp"
#include "ThermoFun/ThermoModelsSubstance.h"
static double dT(double x) { return D(x, "T"); } static double dP(double x) { return D(x, "P"); }
static void own(const std::string& n, const ThermoScalar& x) { eq(n + ".ddt is d/dT", x.ddt, dT(x.val)); eq(n + ".ddp is d/dP", x.ddp, dP(x.val)); }
static ThermoScalar moving(double x) { return quant(x, dT(x), dP(x)); }
// water from an arbitrary Gibbs energy: its derivatives, and the density it implies (molar mass m kg/mol)
struct Water { TPS t; PropertiesSolvent w; };
static Water water(const std::string& n, double m) { typedef std::initializer_list<std::pair<std::string, std::string>> L; auto o = [&](const char* k, nat lo, nat hi, const char* t, const char* p) { return opaque(n + k, lo, hi, L{{"T", n + t}, {"P", n + p}}); };
    in(n + "TTTT", -1e-6, 1e-6); in(n + "TTTP", -1e-13, 1e-13); in(n + "TTPP", -1e-21, 1e-21); in(n + "TPPP", -1e-28, 1e-28); in(n + "PPPP", -1e-36, 1e-36);
    double TTT = o("TTT", -1e-3, 1e-3, "TTTT", "TTTP"), TTP = o("TTP", 1e-11, 1e-10, "TTTP", "TTPP"), TPP = o("TPP", -1e-16, -1e-17, "TTPP", "TPPP"), PPP = o("PPP", 1e-24, 1e-23, "TPPP", "PPPP"); (void)PPP;
    double TT = o("TT", -0.3, -0.1, "TTT", "TTP"), TP = o("TP", 1e-9, 2e-8, "TTP", "TPP"), PP = o("PP", -1e-14, -1e-15, "TPP", "PPP"), t = o("_T", -200, -50, "TT", "TP"), p = o("_P", 1.5e-5, 3e-5, "TP", "PP"), g = o("g", -3e5, -2e5, "_T", "_P"); double T = in("T", 300, 1200);
    Water r; r.t.gibbs_energy = moving(g); r.t.entropy = moving(-t); r.t.heat_capacity_cp = moving(-T * TT); double rho = m / p, al = TP / p, be = -PP / p; r.w.density = moving(rho); r.w.densityT = moving(-rho * al); r.w.densityP = moving(rho * be); r.w.Alpha = moving(al); r.w.Beta = moving(be); r.w.dAldT = moving(TTP / p - al * al); return r; }
// water at the reference state: constants (what else they carry must not matter)
static Water fixed(const std::string& n) { auto q = [&](const char* k, nat lo, nat hi) { std::string m = n + k; return quant(in(m, lo, hi), in(m + "_t", -1, 1), in(m + "_p", -1, 1)); }; Water r; r.t.gibbs_energy = q("g", -3e5, -2e5); r.t.entropy = q("s", 50, 200); r.t.heat_capacity_cp = q("cp", 30, 100); r.w.density = q("rho", 900, 1100); r.w.Alpha = q("al", 1e-4, 1e-3); r.w.Beta = q("be", 1e-10, 1e-9); r.w.dAldT = q("da", 5e-6, 2e-5); return r; }
static TPS gas(const std::string& n, bool moves) { double TTT = in(n + "TTT", -1e-3, 1e-3), TT = moves ? opaque(n + "TT", -0.3, -0.1, {{"T", n + "TTT"}, {"P", "0"}}) : in(n + "TT", -0.3, -0.1), t = moves ? opaque(n + "_T", -300, -100, {{"T", n + "TT"}, {"P", "0"}}) : in(n + "_T", -300, -100), g = moves ? opaque(n + "g", -3e5, -2e5, {{"T", n + "_T"}, {"P", "0"}}) : in(n + "g", -3e5, -2e5), T = moves ? in("T", 300, 1200) : double(298.15);
    TPS r; if (moves) { r.gibbs_energy = quant(g, t, 0); r.entropy = quant(-t, -TT, 0); r.heat_capacity_cp = quant(-T * TT, -TT - T * TTT, 0); } else { r.gibbs_energy = quant(g, in(n + "c1", -1, 1), in(n + "c2", -1, 1)); r.entropy = quant(-t, in(n + "c3", -1, 1), in(n + "c4", -1, 1)); r.heat_capacity_cp = quant(-T * TT, in(n + "c5", -1, 1), 0); } return r; }
static Substance solute() { Substance s; s.setSymbol("X@"); s.setReferenceT(298.15); s.setReferenceP(1e5); s.setLowerT(0); s.setLowerP(0); s.setUpperT(1e9); s.setUpperP(1e12); TPS r; r.gibbs_energy = constant("Gr", -1e6, -1e5); r.enthalpy = constant("Hr", -1e6, -1e5); r.entropy = constant("Sr", -100, 300); r.heat_capacity_cp = constant("Cpr", -500, 500); r.volume = constant("Vr", -5, 5); s.setThermoReferenceProperties(r);
    ThermoParametersSubstance p; p.Cp_nonElectrolyte_coeff = {in("xi", -1, 1), in("aa", -20, 20), in("bb", -20, 20)}; p.solute_holland_powell98_coeff = {in("b", -1, 1)}; s.setThermoParameters(p); return s; }
static void consistent(const TPS& r, double T, double P, double c0, bool volume = true) { double G = r.gibbs_energy.val, H = r.enthalpy.val, S = r.entropy.val; eq("S=-dG/dT", S, -dT(G)); if (volume) eq("V=dG/dP", r.volume.val, dP(G) * 1e5); eq("Cp=T*dS/dT", r.heat_capacity_cp.val, T * dT(S)); eq("Cp=dH/dT", r.heat_capacity_cp.val, dT(H)); eq("G=H-TS up to the reference constants", G - (H - T * S), c0); U_and_A("UA", r, T, P); own("G", r.gibbs_energy); own("S", r.entropy); own("H", r.enthalpy); own("V", r.volume); }

// --- Akinfiev and Diamond (2003): hydration added to the gas
struct AD { double T, P; Water w; TPS a, r; double c0; };
static AD ad(bool at_reference) { AD x; x.T = at_reference ? double(298.15) : in("T", 300, 1200); x.P = in("P", 1e5, 5e8); fork_eq(false); in("T", 300, 1200); x.w = at_reference ? fixed("w") : water("w", double(18.01528) / 1000); Water f = at_reference ? x.w : fixed("f"); TPS gi = gas("i", !at_reference), gf = at_reference ? gi : gas("j", false);
    // the properties brought in: of the gas at T, in the reference values of the aqueous species
    double T = x.T, TT = opaque("aTT", -0.3, -0.1, {{"T", "aTTT"}, {"P", "0"}}), t = opaque("a_T", -300, -100, {{"T", "aTT"}, {"P", "0"}}), g = opaque("ag", -3e5, -2e5, {{"T", "a_T"}, {"P", "0"}}); x.c0 = in("c0", -1e4, 1e4);
    x.a.gibbs_energy = quant(g, t, in("z1", -1, 1)); x.a.entropy = quant(-t, -TT, in("z2", -1, 1)); x.a.heat_capacity_cp = quant(-T * TT); x.a.enthalpy = quant(g - T * t - x.c0, -T * TT, in("z3", -1, 1)); x.a.volume = quant(in("z4", -5, 5)); x.r = SoluteAkinfievDiamondEOS(solute()).thermoProperties(x.T, x.P, x.a, x.w.t, gi, x.w.w, f.t, gf, f.w); return x; }
CONTRACT(ad_consistent, "SoluteAkinfievDiamondEOS, thermoPropertiesAqSoluteAD, Akinfiev_EOS_increments") { in("aTTT", -1e-3, 1e-3); AD x = ad(false); consistent(x.r, x.T, x.P, x.c0); cover("end"); }
CONTRACT(ad_formulation, "Akinfiev_EOS_increments: the published equation") { in("aTTT", -1e-3, 1e-3); AD x = ad(false); double G = x.r.gibbs_energy.val, V = x.r.volume.val, R = 8.31451, rho = x.w.w.density.val / 1000, T = x.T, al = x.w.w.Alpha.val, be = x.w.w.Beta.val * 1e5, M = 18.01528; // V = V_w(1-xi) + xi R T beta + R T rho beta (a + b sqrt(1000/T))
    eq("V", V, (M / rho / 10) * (1 - in("xi", -1, 1)) + in("xi", -1, 1) * R * T * be + R * T * rho * be * (in("aa", -20, 20) + in("bb", -20, 20) * std::sqrt(1000 / T))); double rf = in("frho", 900, 1100) / 1000; eq("a in G", D(G, "aa"), R * T * rho - R * rf * 298.15 + (T - 298.15) * (-R * rf * (1 - 298.15 * in("fal", 1e-4, 1e-3)))); cover("end"); }
CONTRACT(ad_reference, "thermoPropertiesAqSoluteAD at the reference state") { in("aTTT", -1e-3, 1e-3); AD x = ad(true); eq("G", x.r.gibbs_energy.val, x.a.gibbs_energy.val); eq("H", x.r.enthalpy.val, x.a.enthalpy.val); eq("S", x.r.entropy.val, x.a.entropy.val); cover("end"); }
// --- Holland and Powell (1998), Anderson et al. (1991): density models
template<class M> static void density_model(bool volume) { double T = in("T", 300, 1200), P = in("P", 1e5, 5e8); fork_eq(false); Water w = water("w", 0.01801528), f = fixed("f"); Substance s = solute(); TPS ref = s.thermoReferenceProperties(); TPS r = M(s).thermoProperties(T, P, f.w, w.w); consistent(r, T, P, ref.gibbs_energy.val - ref.enthalpy.val + 298.15 * ref.entropy.val, volume); cover("end"); }
static void reference(const TPS& r, const Substance& s, double shift) { TPS q = s.thermoReferenceProperties(); eq("G", r.gibbs_energy.val, q.gibbs_energy.val + shift); eq("H", r.enthalpy.val, q.enthalpy.val + shift); eq("S", r.entropy.val, q.entropy.val); eq("V", r.volume.val, q.volume.val); eq("Cp", r.heat_capacity_cp.val, q.heat_capacity_cp.val); }
CONTRACT(hp98_consistent, "SoluteHollandPowell98, thermoPropertiesAqSoluteHP98") { density_model<SoluteHollandPowell98>(true); }
CONTRACT(an91_consistent, "SoluteAnderson91, thermoPropertiesAqSoluteAN91") { density_model<SoluteAnderson91>(false); }
CONTRACT(hp98_reference, "thermoPropertiesAqSoluteHP98 at the reference state (its equation counts pressure from zero)") { TPvars(); double P = in("P", 1, 1000); Water f = fixed("f"); Substance s = solute(); TPS r = SoluteHollandPowell98(s).thermoProperties(298.15, P, f.w, f.w); double K = (in("Cpr", -500, 500) - 298.15 * in("b", -1, 1)) / (298.15 * f.w.dAldT.val), pb = P / 1e5; reference(r, s, pb * in("Vr", -5, 5) - K * f.w.Beta.val * 1e5 * pb); cover("end"); }
CONTRACT(an91_reference, "thermoPropertiesAqSoluteAN91 at the reference state") { TPvars(); double P = in("P", 1, 1000); Water f = fixed("f"); Substance s = solute(); TPS r = SoluteAnderson91(s).thermoProperties(298.15, P, f.w, f.w); reference(r, s, 0); cover("end"); }
// the equations as published: how each parameter enters the Gibbs energy
CONTRACT(hp98_formulation, "thermoPropertiesAqSoluteHP98: the published equation") { double T = in("T", 300, 1200), P = in("P", 1e5, 5e8); fork_eq(false); Water w = water("w", 0.01801528), f = fixed("f"); Substance s = solute(); TPS r = SoluteHollandPowell98(s).thermoProperties(T, P, f.w, w.w); double G = r.gibbs_energy.val, pb = P / 1e5, t0 = 298.15, tau = T <= 500 ? double(1) : T / 500;
    double c = (f.w.Alpha.val * (T - t0) - f.w.Beta.val * 1e5 * pb + tau * std::log(w.w.density.val / f.w.density.val)) / (t0 * f.w.dAldT.val); eq("Cp", D(G, "Cpr"), c); eq("b", D(G, "b"), T * t0 - t0 * t0 / 2 - T * T / 2 - t0 * c); eq("V", D(G, "Vr"), pb); eq("S", D(G, "Sr"), t0 - T); eq("G", D(G, "Gr"), 1); eq("H", D(r.enthalpy.val, "Hr"), 1); cover("end"); }
CONTRACT(an91_formulation, "thermoPropertiesAqSoluteAN91: the published equation") { double T = in("T", 300, 1200), P = in("P", 1e5, 5e8); fork_eq(false); Water w = water("w", 0.01801528), f = fixed("f"); Substance s = solute(); TPS r = SoluteAnderson91(s).thermoProperties(T, P, f.w, w.w); double G = r.gibbs_energy.val, t0 = 298.15; eq("Cp", D(G, "Cpr"), (f.w.Alpha.val * (T - t0) + std::log(w.w.density.val / f.w.density.val)) / (t0 * f.w.dAldT.val)); eq("S", D(G, "Sr"), t0 - T); eq("V", r.volume.val, in("Vr", -5, 5)); cover("end"); }
CONTRACT(parameters, "thermoPropertiesAqSoluteHP98, thermoPropertiesAqSoluteAD without parameters") { TPvars(); Substance s; s.setSymbol("x"); bool t = false; Water f = fixed("f"); try { if (choose("which")) SoluteHollandPowell98(s).thermoProperties(300., 1e5, f.w, f.w); else SoluteAkinfievDiamondEOS(s).thermoProperties(300., 1e5, f.t, f.t, f.t, f.w, f.t, f.t, f.w); } catch (std::exception&) { t = true; } chk("missing parameters reported", t); cover("end"); }

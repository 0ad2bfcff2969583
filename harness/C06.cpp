// C06: entropy, volume, enthalpy and heat capacity of an aqueous ion are the derivatives of its Gibbs energy.
#include "hkf.hpp"
#include "ThermoFun/ThermoModelsSubstance.h"
typedef TPS (*HKF)(TT, PP, Substance, const ElectroPropertiesSubstance&, const ElectroPropertiesSolvent&, const PropertiesSolvent&);
static TPS run(int which, double T, double P, const Substance& s, const ElectroPropertiesSubstance& e, const ElectroPropertiesSolvent& d, const PropertiesSolvent& w) {
    TT t(T); PP p(P); p /= 1e5; if (which == 0) { t -= 273.15; return thermoPropertiesAqSoluteHKFgems(t, p, s, e, d, w); } return thermoPropertiesAqSoluteHKFreaktoro(t, p, s, e, d, w); }
static void model(int which) {
    double T = in("T", 300, 1200), P = in("P", 1e5, 5e8); fork_eq(false); auto w = solvent(650, 1350); auto d = dielectric(); auto e = born(); Substance s = ion(1, in("wr", 1e4, 1e5)); TPS r = run(which, T, P, s, e, d, w);
    double G = r.gibbs_energy.val, H = r.enthalpy.val, S = r.entropy.val; eq("S=-dG/dT", S, -D(G, "T")); eqc("V=dG/dP", r.volume.val, D(G, "P") * 1e5, 2e-6); eq("Cp=T*dS/dT", r.heat_capacity_cp.val, T * D(S, "T")); eq("Cp=dH/dT", r.heat_capacity_cp.val, D(H, "T"));
    auto ref = s.thermoReferenceProperties(); double g0 = ref.gibbs_energy.val - ref.enthalpy.val + 298.15 * ref.entropy.val; eq("G=H-TS up to the reference constants", G - (H - T * S), g0); U_and_A("UA", r, T, P);
    for (auto& f : fields()) if (f.first != "Cv" && f.first != "Cp" && f.first != "A" && f.first != "U") own_derivatives(f.first, r.*f.second, 1); 
    // the formulation itself: coefficients of each parameter
    double Pb = P / 1e5, L = std::log((2600 + Pb) / 2601), c = 4.184, t = T - 228;
    eq("a1 in G", D(G, "a1"), c * (Pb - 1)); eq("a2 in G", D(G, "a2"), c * L); eq("a3 in G", D(G, "a3"), c * (Pb - 1) / t); eq("a4 in G", D(G, "a4"), c * L / t); eq("c1 in Cp", D(r.heat_capacity_cp.val, "c1"), c); eq("c2 in Cp", D(r.heat_capacity_cp.val, "c2"), c / (t * t)); eq("Sr in G", D(G, "Sr"), -(T - 298.15)); eq("Gr in G", D(G, "Gr"), 1); eq("Hr in H", D(H, "Hr"), 1); eq("w in G", D(G, "w"), -c * (d.bornZ.val + 1)); }
static void reference(int which) {
    fork_eq(false); TPvars(); auto w = solvent(650, 1350); auto d = dielectric(); auto e = born(); double wr = in("wr", 1e4, 1e5); e.w = quant(wr); e.wT = quant(0); e.wP = quant(0); e.wTT = quant(0); Substance s = ion(1, wr); TPS r = run(which, 298.15, 1e5, s, e, d, w); auto ref = s.thermoReferenceProperties();
    double z = d.bornZ.val, y = d.bornY.val; double Zr = z - (ref.gibbs_energy.val - r.gibbs_energy.val) / wr / 4.184, Yr = y - (r.entropy.val - ref.entropy.val) / wr / 4.184; // the reference Born functions the code uses
    le("Zr", std::fabs(Zr + 0.01278), 1e-5); le("Yr", std::fabs(Yr + 5.797e-5), 5e-8); eq("H at reference", (r.enthalpy.val - ref.enthalpy.val) / wr / 4.184, Zr - z + 298.15 * (y - Yr));
    eq("V at reference, per a", D(r.volume.val, "a1"), 4.184004); eq("Cp at reference", r.heat_capacity_cp.val, 4.184 * (in("c1", -50, 50) + in("c2", -1e5, 1e5) / (70.15 * 70.15) + wr * 298.15 * d.bornX.val)); }
static void bad(int which) { TPvars(); Substance s; s.setSymbol("x"); bool t = false; try { run(which, in("T", 300, 1200), in("P", 1e5, 1e8), s, born(), dielectric(), solvent()); } catch (std::exception&) { t = true; } chk("missing parameters reported", t); }
CONTRACT(hkf_gems, "thermoPropertiesAqSoluteHKFgems") { model(0); }
CONTRACT(hkf_reaktoro, "thermoPropertiesAqSoluteHKFreaktoro") { model(1); }
CONTRACT(hkf_gems_reference, "thermoPropertiesAqSoluteHKFgems at 298.15 K and 1 bar") { reference(0); }
CONTRACT(hkf_reaktoro_reference, "thermoPropertiesAqSoluteHKFreaktoro at 298.15 K and 1 bar") { reference(1); }
CONTRACT(hkf_gems_parameters, "thermoPropertiesAqSoluteHKFgems without parameters") { bad(0); }
CONTRACT(hkf_reaktoro_parameters, "thermoPropertiesAqSoluteHKFreaktoro without parameters") { bad(1); }
CONTRACT(hkf_agree, "thermoPropertiesAqSoluteHKFgems, thermoPropertiesAqSoluteHKFreaktoro") {
    double T = in("T", 300, 1200), P = in("P", 1e5, 5e8); fork_eq(false); auto w = solvent(650, 1350); auto d = dielectric(); auto e = born(); Substance s = ion(1, 0); TPS a = run(0, T, P, s, e, d, w), b = run(1, T, P, s, e, d, w); for (auto& f : fields()) { eq(f.first + ".val", (a.*f.second).val, (b.*f.second).val); } }
// the whole models: solvent function, Born coefficient and equation of state together
template<class M> static void whole(int z) {
    double T = in("T", 300, 1200), P = in("P", 1e5, 5e8); fork_eq(false); auto w = solvent(650, 990); auto d = dielectric(); Substance s = ion(z, in("wr", 1e4, 1e5)); TPS r = M(s).thermoProperties(T, P, w, d);
    double G = r.gibbs_energy.val, H = r.enthalpy.val, S = r.entropy.val; eq("S=-dG/dT", S, -D(G, "T")); eqc("V=dG/dP", r.volume.val, D(G, "P") * 1e5, 2e-6); eq("Cp=T*dS/dT", r.heat_capacity_cp.val, T * D(S, "T")); auto ref = s.thermoReferenceProperties(); eq("G=H-TS up to the reference constants", G - (H - T * S), ref.gibbs_energy.val - ref.enthalpy.val + 298.15 * ref.entropy.val); U_and_A("UA", r, T, P); cover("end"); }
CONTRACT(hkf_gems_model, "SoluteHKFgems::thermoProperties, gShok2, omeg92, thermoPropertiesAqSoluteHKFgems") { whole<SoluteHKFgems>(charge()); }
CONTRACT(hkf_reaktoro_model, "SoluteHKFreaktoro::thermoProperties, functionG, speciesElectroStateHKF, thermoPropertiesAqSoluteHKFreaktoro") { whole<SoluteHKFreaktoro>(charge()); }
CONTRACT(hkf_gems_neutral, "SoluteHKFgems::thermoProperties of a neutral species") { whole<SoluteHKFgems>(0); }
CONTRACT(hkf_reaktoro_neutral, "SoluteHKFreaktoro::thermoProperties of a neutral species") { whole<SoluteHKFreaktoro>(0); }

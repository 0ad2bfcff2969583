// C05: pressure and transition corrections of minerals are exact differentials.
#include "subst.hpp"
#include "ThermoFun/ThermoModelsSubstance.h"
typedef Reaktoro_::Temperature TT; typedef Reaktoro_::Pressure PP;
// the correction o -> r: dG/dP = V, dG/dT = -S, G = H - TS, Cp = T dS/dT for what it adds
static void exact(const TPS& r, const TPS& o, double V, double T, bool cp = true) {
    double G = r.gibbs_energy.val - o.gibbs_energy.val, H = r.enthalpy.val - o.enthalpy.val, S = r.entropy.val - o.entropy.val;
    eq("dG/dP=V", D(G, "P") * 1e5, V); eq("dG/dT=-S", D(G, "T"), -S); eq("G=H-TS", G, H - T * S); if (cp) eq("Cp=T*dS/dT", r.heat_capacity_cp.val - o.heat_capacity_cp.val, T * D(S, "T")); else same_field("Cp kept", r.heat_capacity_cp, o.heat_capacity_cp);
    same_field("Cv kept", r.heat_capacity_cv, o.heat_capacity_cv); }
static void carried(const TPS& r, bool bar) { double k = 1; for (auto& f : fields()) if (f.first != "Cv") own_derivatives(f.first, r.*f.second, k); }

static TPS incoming_bar() { return incoming("i"); }

CONTRACT(constant_volume, "ConMolVol::thermoProperties") {
    double T = in("T", 250, 1500), P = in("P", 1e4, 1e9), Tr = in("Tr", 270, 300), Pr = in("Pr", 5e4, 2e5); Substance s = solid(Tr, Pr); TPS o = incoming_bar();
    TPS r = ConMolVol(s).thermoProperties(T, P, o); double V = s.thermoReferenceProperties().volume.val; eq("V", r.volume.val, V); exact(r, o, r.volume.val, T); carried(r, true); same_field("S kept", r.entropy, o.entropy); U_and_A("UA", r, T, P);
    eq("G=V(P-Pr)", r.gibbs_energy.val - o.gibbs_energy.val, V * (P - Pr) / 1e5);
}
CONTRACT(no_volume, "ConMolVol::thermoProperties without a reference volume") {
    double T = in("T", 250, 1500), P = in("P", 1e4, 1e9), Tr = in("Tr", 270, 300), Pr = in("Pr", 5e4, 2e5); Substance s = solid(Tr, Pr); TPS q = s.thermoReferenceProperties(); q.volume = ThermoScalar(); q.volume.sta = {notdefined, ""}; s.setThermoReferenceProperties(q); TPS o = incoming_bar();
    TPS r = ConMolVol(s).thermoProperties(T, P, o); for (auto& f : fields()) same_field(f.first + " kept", r.*f.second, o.*f.second);
}
static void murnaghan(const Substance& s0, double T, double P, double Tr, double Pr, bool eos) {
    Substance s = s0; TPS o = incoming_bar(); TPS r = MinMurnaghanEOSHP98(s).thermoProperties(T, P, o);
    if (eos) exact(r, o, r.volume.val - o.volume.val, T); else { exact(r, o, r.volume.val, T); eq("V", r.volume.val, s.thermoReferenceProperties().volume.val); }
    carried(r, true); U_and_A("UA", r, T, P); cover(eos ? "eos" : "const"); }
CONTRACT(murnaghan_eos, "thermoPropertiesMinMurnaghanEOSHP98, MinMurnaghanEOSHP98::thermoProperties") {
    double T = in("T", 250, 1500), P = in("P", 1e4, 1e9), Tr = in("Tr", 270, 300), Pr = in("Pr", 5e4, 2e5); Substance s = solid(Tr, Pr, !choose("out of range")); ThermoParametersSubstance p; double a = in("alpha", 0.5, 20), k = in("kappa", 100, 5000); p.isobaric_expansivity = a; p.isothermal_compresibility = k; s.setThermoParameters(p);
    if (T == Tr && P == Pr) return; murnaghan(s, T, P, Tr, Pr, true); }
CONTRACT(murnaghan_value, "thermoPropertiesMinMurnaghanEOSHP98: volume and bulk modulus at the reference") {
    double T = in("Tr", 270, 300), P = in("P", 2e5, 1e9), Pr = in("Pr", 5e4, 1e5); Substance s = solid(T, Pr); ThermoParametersSubstance p; double a = in("alpha", 0.5, 20), k = in("kappa", 100, 5000); p.isobaric_expansivity = a; p.isothermal_compresibility = k; s.setThermoParameters(p); TPS o; for (auto& f : fields()) o.*f.second = ThermoScalar(0.0);
    TPS r = MinMurnaghanEOSHP98(s).thermoProperties(T, P, o); double V = s.thermoReferenceProperties().volume.val; eq("V", std::pow(r.volume.val / V, 4), 1 / (1 + 4 * (P / 1e8) / k)); }
CONTRACT(murnaghan_none, "thermoPropertiesMinMurnaghanEOSHP98 without expansivity or compressibility") {
    double T = in("T", 250, 1500), P = in("P", 1e4, 1e9), Tr = in("Tr", 270, 300), Pr = in("Pr", 5e4, 2e5); Substance s = solid(Tr, Pr); ThermoParametersSubstance p; bool w = choose("which"); p.isobaric_expansivity = w ? double(0) : in("alpha", 1, 20); p.isothermal_compresibility = w ? in("kappa", 100, 5000) : double(0); s.setThermoParameters(p); murnaghan(s, T, P, Tr, Pr, false); }
CONTRACT(berman, "thermoPropertiesMinBerman88, MinBerman88::thermoProperties") {
    double T = in("T", 250, 1500), P = in("P", 1e4, 1e9), Tr = in("Tr", 270, 300), Pr = in("Pr", 5e4, 2e5); Substance s = solid(Tr, Pr, !choose("out of range")); ThermoParametersSubstance p; for (int i = 0; i < 5; ++i) p.volume_coeff.push_back(in("v" + std::to_string(i + 1), -1, 1)); s.setThermoParameters(p); TPS o = incoming_bar();
    TPS r = MinBerman88(s).thermoProperties(T, P, o); if (T == Tr && P == Pr) return; exact(r, o, r.volume.val, T); carried(r, true); U_and_A("UA", r, T, P);
    double V = s.thermoReferenceProperties().volume.val, dT = T - Tr, dP = (P - Pr) / 1e5; auto v = p.volume_coeff; eq("V", r.volume.val, V * (1 + v[0] * dT + v[1] * dT * dT + v[2] * dT * dT * dT + v[3] * dP + v[4] * dP * dP)); cover("end");
}
CONTRACT(berman_reference, "thermoPropertiesMinBerman88 at the reference state") {
    TPvars(); double Tr = in("Tr", 270, 300), Pr = in("Pr", 5e4, 2e5); Substance s = solid(Tr, Pr); ThermoParametersSubstance p; for (int i = 0; i < 5; ++i) p.volume_coeff.push_back(in("v" + std::to_string(i + 1), -1, 1)); s.setThermoParameters(p); TPS o = incoming_bar(); TPS r = MinBerman88(s).thermoProperties(Tr, Pr, o);
    for (auto& f : fields()) if (f.first != "V" && f.first != "U" && f.first != "A") eq(f.first + " kept", (r.*f.second).val, (o.*f.second).val); eq("V", r.volume.val, s.thermoReferenceProperties().volume.val); }
CONTRACT(berman_coefficients, "thermoPropertiesMinBerman88 with a wrong number of coefficients") {
    Substance s = solid(298, 1e5); ThermoParametersSubstance p; int n = choose("n", 7); if (n == 5) return; p.volume_coeff.resize(n); s.setThermoParameters(p); bool t = false; try { MinBerman88(s).thermoProperties(in("T", 250, 1500), in("P", 1e4, 1e9), incoming("i")); } catch (std::exception&) { t = true; } chk("reported", t); }
static void landau(double Vmax) {
    double T = in("T", 250, 1500), P = in("P", 1e4, 1e9), Tr = in("Tr", 270, 300), Pr = in("Pr", 5e4, 2e5); Substance s = solid(Tr, Pr, !choose("out of range")); ThermoParametersSubstance p; double Tc = in("Tc", 50, 1200), Smax = in("Smax", 1, 30); p.m_landau_phase_trans_props = {Tc, Smax, Vmax}; p.isobaric_expansivity = in("alpha", 0.5, 20); p.isothermal_compresibility = in("kappa", 100, 5000); s.setThermoParameters(p);
    double Tcr = Tc + 273.15 + Vmax / Smax * (P / 1e5); if (T == Tcr) return; TPS o = incoming_bar(); TPS r = HPLandau(s).thermoProperties(T, P, o); exact(r, o, r.volume.val, T); carried(r, true); U_and_A("UA", r, T, P); cover(T < Tcr ? "below" : "above"); }
CONTRACT(landau_model, "thermoPropertiesHPLandau, HPLandau::thermoProperties") { landau(in("Vmax", 0.001, 0.2)); }
CONTRACT(landau_negative_volume, "thermoPropertiesHPLandau with a negative transition volume") { landau(in("Vmax", -0.01, -0.0001)); }
CONTRACT(landau_no_volume, "thermoPropertiesHPLandau without a transition volume") { landau(0); }
CONTRACT(landau_coefficients, "thermoPropertiesHPLandau with too few coefficients") {
    Substance s = solid(298, 1e5); ThermoParametersSubstance p; p.m_landau_phase_trans_props.resize(choose("n", 3)); s.setThermoParameters(p); bool t = false; try { HPLandau(s).thermoProperties(in("T", 250, 1500), in("P", 1e4, 1e9), incoming("i")); } catch (std::exception&) { t = true; } chk("reported", t); }

// Shared by the contracts about substances: arbitrary incoming properties and what a correction may do to them.
#pragma once
#include "ts.hpp"
#include "ThermoFun/Substance.h"
#include "ThermoFun/ThermoProperties.h"
#include "ThermoFun/ThermoParameters.h"
#include "ThermoFun/GlobalVariables.h"
using namespace ThermoFun;
typedef ThermoPropertiesSubstance TPS;
inline ThermoScalar constant(const std::string& n, nat lo = -1e6, nat hi = 1e6) { ThermoScalar x; x = in(n, lo, hi); return x; }
// properties as the previous model left them: any values, any derivatives
inline TPS incoming(const std::string& n) { TPS r; r.gibbs_energy = quantity(n + "G", -1e6, 1e6, calculated, false); r.enthalpy = quantity(n + "H", -1e6, 1e6, calculated, false); r.entropy = quantity(n + "S", -500, 500, calculated, false); r.volume = quantity(n + "V", -50, 50, calculated, false);
    r.heat_capacity_cp = quantity(n + "Cp", -500, 500, calculated, false); r.heat_capacity_cv = quantity(n + "Cv", -500, 500, calculated, false); r.internal_energy = quantity(n + "U", -1e6, 1e6, calculated, false); r.helmholtz_energy = quantity(n + "A", -1e6, 1e6, calculated, false); return r; }
inline std::vector<std::pair<std::string, ThermoScalar TPS::*>> fields() { return {{"G", &TPS::gibbs_energy}, {"H", &TPS::enthalpy}, {"S", &TPS::entropy}, {"V", &TPS::volume}, {"Cp", &TPS::heat_capacity_cp}, {"Cv", &TPS::heat_capacity_cv}, {"U", &TPS::internal_energy}, {"A", &TPS::helmholtz_energy}}; }
inline void same_field(const std::string& ob, const ThermoScalar& a, const ThermoScalar& b) { eq(ob + ".val", a.val, b.val); eq(ob + ".ddt", a.ddt, b.ddt); eq(ob + ".ddp", a.ddp, b.ddp); }
// the carried derivatives are the derivatives 
inline void own_derivatives(const std::string& ob, const ThermoScalar& a, double pscale) { eq(ob + ".ddt is d/dT", a.ddt, D(a.val, "T")); eq(ob + ".ddp is d/dP", a.ddp, D(a.val, "P") * pscale); }
inline Substance solid(double Tr, double Pr, bool limits = true) { Substance s; s.setSymbol("X"); s.setReferenceT(Tr); s.setReferenceP(Pr); TPS r; r.gibbs_energy = constant("Gr"); r.enthalpy = constant("Hr"); r.entropy = constant("Sr"); r.heat_capacity_cp = constant("Cpr"); r.volume = constant("Vr", 0.5, 50); s.setThermoReferenceProperties(r);
    if (limits) { s.setLowerT(0); s.setLowerP(0); s.setUpperT(1e9); s.setUpperP(1e12); } else { s.setLowerT(1e8); s.setLowerP(0); s.setUpperT(1e9); s.setUpperP(1e12); } return s; }
// energies against each other, in the units returned (J, bar)
inline void U_and_A(const std::string& ob, const TPS& r, double T, double P) { eq(ob + ".U=H-PV", r.internal_energy.val, r.enthalpy.val - P / 1e5 * r.volume.val); eq(ob + ".A=U-TS", r.helmholtz_energy.val, r.internal_energy.val - T * r.entropy.val); }

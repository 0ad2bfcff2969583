// Shared by the contracts about batch calculations and their files.
#pragma once
#include "engine.hpp"
#define private public
#include "ThermoFun/Batch/ThermoBatch.h"
#undef private
typedef std::string str; typedef std::vector<double> vec;
static const std::vector<std::pair<str, ThermoScalar TPS::*>> SPROPS = {{"gibbs_energy", &TPS::gibbs_energy}, {"entropy", &TPS::entropy}, {"enthalpy", &TPS::enthalpy}, {"volume", &TPS::volume}, {"heat_capacity_cp", &TPS::heat_capacity_cp}, {"heat_capacity_cv", &TPS::heat_capacity_cv}, {"internal_energy", &TPS::internal_energy}, {"helmholtz_energy", &TPS::helmholtz_energy}};
static const std::vector<std::pair<str, ThermoScalar TPR::*>> RPROPS = {{"reaction_gibbs_energy", &TPR::reaction_gibbs_energy}, {"logKr", &TPR::log_equilibrium_constant}, {"reaction_entropy", &TPR::reaction_entropy}, {"reaction_enthalpy", &TPR::reaction_enthalpy}, {"reaction_volume", &TPR::reaction_volume}, {"lnKr", &TPR::ln_equilibrium_constant}, {"reaction_heat_capacity_cp", &TPR::reaction_heat_capacity_cp}, {"reaction_heat_capacity_cv", &TPR::reaction_heat_capacity_cv}, {"reaction_internal_energy", &TPR::reaction_internal_energy}, {"reaction_helmholtz_energy", &TPR::reaction_helmholtz_energy}};
struct UnitOf { const char* name; nat factor, shift; };   // value in it * factor + shift = value in the engine's unit
static const std::vector<UnitOf> UT = {{"K", 1, 0}, {"degC", 1, 273.15}}, UP = {{"Pa", 1, 0}, {"bar", 1e5, 0}, {"MPa", 1e6, 0}}, UE = {{"J/mol", 1, 0}, {"kJ/mol", 1000, 0}, {"cal/mol", 4.184, 0}}, US = {{"J/(mol*K)", 1, 0}, {"cal/(mol*K)", 4.184, 0}}, UV = {{"J/bar", 1, 0}, {"cm3", 0.1, 0}}, U1 = {{"1", 1, 0}};
inline double to_engine(const UnitOf& u, double x) { return x * double(u.factor) + double(u.shift); }
inline double from_engine(const UnitOf& u, double x) { return x / double(u.factor); }
template<class T> inline std::vector<T> some(const std::vector<T>& all, const str& n, int max) { int first = choose("first " + n, (int)all.size()), k = 1 + choose("number of " + n, max); std::vector<T> r; for (int i = 0; i < k; ++i) r.push_back(all[(first + i) % all.size()]); return r; }

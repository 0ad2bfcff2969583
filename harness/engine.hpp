// The engine over the contracts of the models: the real ThermoEngine, Database, Substance, Reaction and
// Element code, with every calculation model replaced by what its contract leaves - some function of its
// arguments - and a record of how it was called.
#pragma once
#include "subst.hpp"
#include "ThermoFun/ThermoEngine.h"
#include "ThermoFun/Database.h"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/Element.h"
#include "ThermoFun/ThermoModelsSubstance.h"
#include "ThermoFun/ThermoModelsSolvent.h"
#include "ThermoFun/ElectroModelsSolvent.h"
#include "ThermoFun/ThermoModelsReaction.h"
typedef ThermoPropertiesReaction TPR;
typedef MethodGenEoS_Thrift G_; typedef MethodCorrT_Thrift T_; typedef MethodCorrP_Thrift P_;
struct Call { std::string model, subst, extra; double T, P; std::vector<double> in; int result; };
struct World { std::vector<Call> calls; std::vector<Call> known; std::vector<TPS> tps; std::vector<TPR> tpr; std::vector<PropertiesSolvent> ps; std::vector<ElectroPropertiesSolvent> es; int undefined = 0; int psat = 0; };
inline World*& world() { static World* w = nullptr; return w; }
inline void start() { delete world(); world() = new World; TPvars(); fork_eq(false); }
inline void feed(std::vector<double>& v, const ThermoScalar& x) { v.push_back(x.val); v.push_back(x.ddt); v.push_back(x.ddp); }
inline void feed(std::vector<double>& v, const TPS& t) { for (auto& f : fields()) feed(v, t.*f.second); }
inline void feed(std::vector<double>& v, const TPR& t) { for (auto x : {&t.ln_equilibrium_constant, &t.log_equilibrium_constant, &t.reaction_gibbs_energy, &t.reaction_enthalpy, &t.reaction_entropy, &t.reaction_volume, &t.reaction_heat_capacity_cp, &t.reaction_heat_capacity_cv, &t.reaction_internal_energy, &t.reaction_helmholtz_energy}) feed(v, *x); }
inline void feed(std::vector<double>& v, const PropertiesSolvent& p) { for (auto x : {&p.density, &p.densityT, &p.densityP, &p.Alpha, &p.Beta}) feed(v, *x); }
inline void feed(std::vector<double>& v, const ElectroPropertiesSolvent& p) { for (auto x : {&p.epsilon, &p.bornZ, &p.bornY}) feed(v, *x); }
inline bool as(double a, double b) { return vf::same(a, b) || (!vf::symbolic && vf::equal(a, b)); }
inline bool same_args(const Call& a, const Call& b) { if (a.model != b.model || a.subst != b.subst || a.extra != b.extra || a.in.size() != b.in.size() || !as(a.T, b.T) || !as(a.P, b.P)) return false; for (size_t i = 0; i < a.in.size(); ++i) if (!as(a.in[i], b.in[i])) return false; return true; }
// the number of the result for these arguments; make() extends the list of results for new arguments
template<class F> int resolve(Call c, F make) { auto& w = *world(); int k = -1; for (auto& o : w.known) if (same_args(o, c)) k = o.result; if (k < 0) { k = make(); c.result = k; w.known.push_back(c); } c.result = k; w.calls.push_back(c); return k; }
inline std::string who(const Substance& s) { return s.symbol() + "|" + s.name(); }
inline void undefine(TPS& t, int which) { int i = 0; for (auto& f : fields()) { ++i; if (which == i || which == 9) t.*f.second = ThermoScalar(); } }
inline TPS some_tps(const std::string& m, const Substance& s, double T, double P, std::vector<double> in, const std::string& extra = "") { auto& w = *world(); return w.tps[resolve({m, who(s), extra, T, P, in, 0}, [&] { int k = w.tps.size(); TPS t = incoming("m" + std::to_string(k)); undefine(t, w.undefined); w.tps.push_back(t); return k; })]; }
inline PropertiesSolvent some_ps(const std::string& m, const Substance& s, double T, double P, const std::string& extra) { auto& w = *world(); return w.ps[resolve({m, who(s), extra, T, P, {}, 0}, [&] { int k = w.ps.size(); std::string n = "s" + std::to_string(k); PropertiesSolvent p = PropertiesSolvent(); p.density = quantity(n + "rho", 100, 1500, calculated, false); p.densityT = quantity(n + "rhoT", -3, 3, calculated, false); p.densityP = quantity(n + "rhoP", 1e-9, 1e-6, calculated, false); p.Alpha = quantity(n + "al", -1e-2, 1e-2, calculated, false); p.Beta = quantity(n + "be", 1e-11, 1e-8, calculated, false); w.ps.push_back(p); return k; })]; }
inline ElectroPropertiesSolvent some_es(const std::string& m, const Substance& s, double T, double P, std::vector<double> in, const std::string& extra) { auto& w = *world(); return w.es[resolve({m, who(s), extra, T, P, in, 0}, [&] { int k = w.es.size(); std::string n = "e" + std::to_string(k); ElectroPropertiesSolvent p; p.epsilon = quantity(n + "eps", 1, 100, calculated, false); p.bornZ = quantity(n + "Z", -1, 0, calculated, false); p.bornY = quantity(n + "Y", -1, 0, calculated, false); w.es.push_back(p); return k; })]; }
inline TPR some_tpr(const std::string& m, const Reaction& r, double T, double P, std::vector<double> in, const std::string& extra = "") { auto& w = *world(); return w.tpr[resolve({m, r.symbol() + "|" + r.name(), extra, T, P, in, 0}, [&] { int k = w.tpr.size(); std::string n = "r" + std::to_string(k); TPS a = incoming(n); TPR t; t.reaction_gibbs_energy = a.gibbs_energy; t.reaction_enthalpy = a.enthalpy; t.reaction_entropy = a.entropy; t.reaction_volume = a.volume; t.reaction_heat_capacity_cp = a.heat_capacity_cp; t.reaction_heat_capacity_cv = a.heat_capacity_cv; t.reaction_internal_energy = a.internal_energy; t.reaction_helmholtz_energy = a.helmholtz_energy; t.ln_equilibrium_constant = quantity(n + "lnK", -100, 100, calculated, false); t.log_equilibrium_constant = quantity(n + "lgK", -100, 100, calculated, false); w.tpr.push_back(t); return k; })]; }
// at P = 0 a water model works at the saturation pressure and hands it back
inline void saturation(double T, double& P) { if (vf::equal(P, 0)) { auto& w = *world(); for (auto& c : w.known) if (c.model == "psat" && as(c.T, T)) { P = c.P; return; } P = in("psat" + std::to_string(w.psat++), 1e3, 2e7); w.known.push_back({"psat", "", "", T, P, {}, 0}); } }
#define MODEL(C) struct C::Impl { Substance s; }; C::C(const Substance& s) : pimpl(new Impl{s}) {}
#define RMODEL(C) struct C::Impl { Reaction s; }; C::C(const Reaction& s) : pimpl(new Impl{s}) {}
namespace ThermoFun {
MODEL(SoluteAkinfievDiamondEOS) auto SoluteAkinfievDiamondEOS::thermoProperties(double T, double P, TPS t, const TPS& a, const TPS& b, const PropertiesSolvent& c, const TPS& d, const TPS& e, const PropertiesSolvent& f) -> TPS { std::vector<double> v; feed(v, t); feed(v, a); feed(v, b); feed(v, c); feed(v, d); feed(v, e); feed(v, f); return some_tps("AKI", pimpl->s, T, P, v); }
MODEL(WaterIdealGasWoolley) auto WaterIdealGasWoolley::thermoProperties(double T, double P) -> TPS { return some_tps("Woolley", pimpl->s, T, P, {}); }
#define HKFLIKE(C, N) MODEL(C) auto C::thermoProperties(double T, double P, PropertiesSolvent w, ElectroPropertiesSolvent e) -> TPS { std::vector<double> v; feed(v, w); feed(v, e); return some_tps(N, pimpl->s, T, P, v); }
HKFLIKE(SoluteHKFgems, "HKF") HKFLIKE(SoluteHKFreaktoro, "HKFR")
#define HPLIKE(C, N) MODEL(C) auto C::thermoProperties(double T, double P, const PropertiesSolvent& w, const PropertiesSolvent& e) -> TPS { std::vector<double> v; feed(v, w); feed(v, e); return some_tps(N, pimpl->s, T, P, v); }
HPLIKE(SoluteHollandPowell98, "HP98") HPLIKE(SoluteAnderson91, "AN91")
#define CORR(C, N) MODEL(C) auto C::thermoProperties(double T, double P, TPS t) -> TPS { std::vector<double> v; feed(v, t); return some_tps(N, pimpl->s, T, P, v); }
CORR(MinMurnaghanEOSHP98, "CEH") CORR(MinBerman88, "VBE") CORR(MinBMGottschalk, "VBM") CORR(HPLandau, "CHP") CORR(ConMolVol, "CON")
#define ALONE(C, N) MODEL(C) auto C::thermoProperties(double T, double P) -> TPS { return some_tps(N, pimpl->s, T, P, {}); }
ALONE(EmpiricalCpIntegration, "CPT") ALONE(EntropyCpIntegration, "CST")
#define GAS(C, N) MODEL(C) auto C::thermoProperties(double T, double P, TPS t, bool ap) -> TPS { std::vector<double> v; feed(v, t); return some_tps(N, pimpl->s, T, P, v, ap ? "corrected" : "uncorrected"); }
GAS(GasCORK, "CORK") GAS(GasPRSV, "PRSV") GAS(GasCGF, "EMP") GAS(GasSRK, "SRK") GAS(GasPR78, "PR78") GAS(GasSTP, "STP") GAS(IdealGasLawVol, "OFF")
MODEL(WaterHGK) auto WaterHGK::propertiesSolvent(double T, double& P, int state, std::string) -> PropertiesSolvent { saturation(T, P); return some_ps("WAT", pimpl->s, T, P, std::to_string(state)); } auto WaterHGK::thermoPropertiesSubstance(double T, double& P, int state, std::string tr) -> TPS { saturation(T, P); return some_tps("WAT", pimpl->s, T, P, {}, std::to_string(state) + tr); }
#define WATER(C, N) MODEL(C) auto C::propertiesSolvent(double T, double& P, int state) -> PropertiesSolvent { saturation(T, P); return some_ps(N, pimpl->s, T, P, std::to_string(state)); } auto C::thermoPropertiesSubstance(double T, double& P, int state, std::string tr) -> TPS { saturation(T, P); return some_tps(N, pimpl->s, T, P, {}, std::to_string(state) + tr); }
WATER(WaterHGKreaktoro, "WAR") WATER(WaterWP95reaktoro, "WWP")
MODEL(WaterZhangDuan2005) auto WaterZhangDuan2005::propertiesSolvent(double T, double P, int state) -> PropertiesSolvent { return some_ps("WZD", pimpl->s, T, P, std::to_string(state)); } auto WaterZhangDuan2005::thermoPropertiesSubstance(double T, double P, int state) -> TPS { return some_tps("WZD", pimpl->s, T, P, {}, std::to_string(state)); }
MODEL(WaterJNreaktoro) auto WaterJNreaktoro::electroPropertiesSolvent(double T, double P, PropertiesSolvent p, int state) -> ElectroPropertiesSolvent { std::vector<double> v; feed(v, p); return some_es("WJNR", pimpl->s, T, P, v, std::to_string(state)); }
#define ELECTRO(C, N) MODEL(C) auto C::electroPropertiesSolvent(double T, double P, int state) -> ElectroPropertiesSolvent { return some_es(N, pimpl->s, T, P, {}, std::to_string(state)); }
ELECTRO(WaterJNgems, "WJNG") ELECTRO(WaterElectroSverjensky2014, "WSV14") ELECTRO(WaterElectroFernandez1997, "WF97")
#define DENS(C, N) RMODEL(C) auto C::thermoProperties(double T, double P, PropertiesSolvent p) -> TPR { std::vector<double> v; feed(v, p); return some_tpr(N, pimpl->s, T, P, v); }
DENS(ReactionDolejsManning10, "DMD") DENS(ReactionFrantzMarshall, "DKR") DENS(ReactionRyzhenkoBryzgalin, "MRB")
RMODEL(Reaction_LogK_fT) auto Reaction_LogK_fT::thermoProperties(double T, double P, MethodCorrT_Thrift::type m) -> TPR { return some_tpr("LGK", pimpl->s, T, P, {}, std::to_string((int)m)); }
RMODEL(Reaction_Vol_fT) auto Reaction_Vol_fT::thermoProperties(double T, double P) -> TPR { return some_tpr("VFT", pimpl->s, T, P, {}); }
}
inline TPS reference(const std::string& n) { return incoming(n); }
inline Substance record(const std::string& sym, int gen, int t, int p, SubstanceClass::type cls = SubstanceClass::COMPONENT) { Substance s; s.setSymbol(sym); s.setName(sym); s.setFormula(sym); s.setSubstanceClass(cls); s.setAggregateState(AggregateState::AQUEOUS); s.setThermoCalculationType(SubstanceThermoCalculationType::DCOMP); s.setReferenceT(298.15); s.setReferenceP(1e5);
    if (gen) s.setMethodGenEoS((G_::type)gen); if (t) s.setMethod_T((T_::type)t); if (p) s.setMethod_P((P_::type)p); s.setThermoReferenceProperties(reference("ref" + sym)); return s; }
inline Substance water(int gen = G_::CTPM_WJNR, int t = T_::CTM_WAR) { return record("H2O@", gen, t, 0, SubstanceClass::AQSOLVENT); }
inline void same_tps(const std::string& ob, const TPS& a, const TPS& b) { for (auto& f : fields()) same_field(ob + "." + f.first, a.*f.second, b.*f.second); }
inline std::vector<std::pair<std::string, ThermoScalar TPR::*>> rfields() { return {{"G", &TPR::reaction_gibbs_energy}, {"H", &TPR::reaction_enthalpy}, {"S", &TPR::reaction_entropy}, {"V", &TPR::reaction_volume}, {"Cp", &TPR::reaction_heat_capacity_cp}, {"Cv", &TPR::reaction_heat_capacity_cv}, {"U", &TPR::reaction_internal_energy}, {"A", &TPR::reaction_helmholtz_energy}}; }

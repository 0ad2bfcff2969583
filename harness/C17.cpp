// C17: whatever model computes a substance or a reaction, U = H - P*V and A = U - T*S hold in the units returned
// (J/mol, J/bar), together with the derivatives carried.
#include "hkf.hpp"
#include "ThermoFun/ThermoModelsSubstance.h"
#include "ThermoFun/ThermoModelsSolvent.h"
#include "ThermoFun/ThermoModelsReaction.h"
#include "ThermoFun/ThermoEngine.h"
#include "ThermoFun/Database.h"
#include "ThermoFun/Element.h"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/Substances/Solvent/WaterHGKreaktoro.h"
#include "ThermoFun/Substances/Solvent/WaterWP95reaktoro.h"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterThermoState.hpp"
typedef ThermoPropertiesReaction TPR; typedef ThermoScalar TS; typedef MethodCorrT_Thrift M;
static TS any(const std::string& n, nat lo, nat hi) { return quant(in(n, lo, hi), in(n + ".t", -10, 10), in(n + ".p", -1e-3, 1e-3)); }
static void UA(const std::string& o, const TS& U, const TS& A, const TS& H, const TS& S, const TS& V, double T, double P, double cU = 0, double cA = 0) { double b = P / 1e5;
    eq(o + "U=H-PV", U.val, H.val - b * V.val + cU); eq(o + "A=U-TS", A.val, U.val - T * S.val + cA); eq(o + "U.ddt", U.ddt, H.ddt - b * V.ddt); eq(o + "U.ddp", U.ddp, H.ddp - b * V.ddp - V.val / 1e5); eq(o + "A.ddt", A.ddt, U.ddt - T * S.ddt - S.val); eq(o + "A.ddp", A.ddp, U.ddp - T * S.ddp); }
static void check(const std::string& o, const TPS& r, double T, double P) { UA(o, r.internal_energy, r.helmholtz_energy, r.enthalpy, r.entropy, r.volume, T, P); cover("end"); }
static void check(const std::string& o, const TPR& r, double T, double P) { UA(o, r.reaction_internal_energy, r.reaction_helmholtz_energy, r.reaction_enthalpy, r.reaction_entropy, r.reaction_volume, T, P); cover("end"); }
static TPS before(const std::string& n) { TPS r; r.gibbs_energy = any(n + "G", -1e6, 1e6); r.enthalpy = any(n + "H", -1e6, 1e6); r.entropy = any(n + "S", -500, 500); r.volume = any(n + "V", -50, 50); r.heat_capacity_cp = any(n + "Cp", -500, 500); r.heat_capacity_cv = any(n + "Cv", -500, 500); r.internal_energy = any(n + "U", -1e6, 1e6); r.helmholtz_energy = any(n + "A", -1e6, 1e6); return r; }
struct Q { double T, P, Tr, Pr; Substance s; TPS o; };
static Q query() { Q q; q.T = in("T", 250, 1500); q.P = in("P", 2e5, 1e9); q.Tr = in("Tr", 270, 300); q.Pr = in("Pr", 5e4, 1.5e5); q.s = solid(q.Tr, q.Pr); q.o = before("i"); fork_eq(false); return q; }
// --- minerals
CONTRACT(constant_volume, "ConMolVol::thermoProperties") { Q q = query(); check("", ConMolVol(q.s).thermoProperties(q.T, q.P, q.o), q.T, q.P); }
CONTRACT(murnaghan, "MinMurnaghanEOSHP98::thermoProperties, thermoPropertiesMinMurnaghanEOSHP98") { Q q = query(); ThermoParametersSubstance p; int k = choose("parameters", 3); p.isobaric_expansivity = k == 1 ? double(0) : in("alpha", 1, 20); p.isothermal_compresibility = k == 2 ? double(0) : in("kappa", 100, 5000); q.s.setThermoParameters(p); check("", MinMurnaghanEOSHP98(q.s).thermoProperties(q.T, q.P, q.o), q.T, q.P); }
CONTRACT(berman, "MinBerman88::thermoProperties, thermoPropertiesMinBerman88") { Q q = query(); ThermoParametersSubstance p; for (int i = 0; i < 5; ++i) p.volume_coeff.push_back(in("v" + std::to_string(i + 1), -1, 1)); q.s.setThermoParameters(p); check("", MinBerman88(q.s).thermoProperties(q.T, q.P, q.o), q.T, q.P); }
CONTRACT(landau, "HPLandau::thermoProperties, thermoPropertiesHPLandau") { Q q = query(); ThermoParametersSubstance p; int k = choose("transition volume", 3); double Vmax = 0; if (k == 1) Vmax = in("Vmax", 0.001, 0.2); if (k == 2) Vmax = in("Vneg", -0.01, -0.0001); p.m_landau_phase_trans_props = {in("Tc", 50, 1200), in("Smax", 1, 30), Vmax}; p.isobaric_expansivity = in("alpha", 0.5, 20); p.isothermal_compresibility = in("kappa", 100, 5000); q.s.setThermoParameters(p); check("", HPLandau(q.s).thermoProperties(q.T, q.P, q.o), q.T, q.P); }
namespace ThermoFun { auto BM_Volume(Reaktoro_::Pressure, TS, TS, TS, TS, TS start) -> TS { if (!symbolic) return start; static int n = 0; return any("v" + std::to_string(n++ % 3), 5, 100); } }
CONTRACT(birch_murnaghan, "MinBMGottschalk::thermoProperties, thermoPropertiesMinBMGottschalk (whatever BM_Volume returns)") { Q q = query(); std::vector<double> b(9, 0.); b[0] = in("b0", 1e-6, 1e-4); b[1] = in("b1", 1e-9, 1e-8); b[2] = in("b2", -1, 1); b[5] = in("b5", 1e5, 1e6); b[6] = in("b6", -20, -1); b[7] = in("b7", 2, 6); b[8] = in("b8", -1e-4, -1e-6); ThermoParametersSubstance p; p.volume_BirchM_coeff = b; q.s.setThermoParameters(p); check("", MinBMGottschalk(q.s).thermoProperties(q.T, q.P, q.o), q.T, q.P); }
// --- gases: whatever the equation of state returns
static TPS eos; static int asked;
#define GASFN(N) namespace ThermoFun { auto thermoPropertiesGas##N(Reaktoro_::Temperature, Reaktoro_::Pressure, Substance, TPS) -> TPS { ++asked; return eos; } }
GASFN(CORK) GASFN(PRSV) GASFN(CGF) GASFN(SRK) GASFN(PR78) GASFN(STP)
static TPS gas(int k, const Q& q, bool corrected) { switch (k) { case 0: return GasCORK(q.s).thermoProperties(q.T, q.P, q.o, corrected); case 1: return GasPRSV(q.s).thermoProperties(q.T, q.P, q.o, corrected); case 2: return GasCGF(q.s).thermoProperties(q.T, q.P, q.o, corrected); case 3: return GasSRK(q.s).thermoProperties(q.T, q.P, q.o, corrected); case 4: return GasPR78(q.s).thermoProperties(q.T, q.P, q.o, corrected); case 5: return GasSTP(q.s).thermoProperties(q.T, q.P, q.o, corrected); default: return IdealGasLawVol(q.s).thermoProperties(q.T, q.P, q.o, corrected); } }
CONTRACT(gases, "GasCORK, GasPRSV, GasCGF, GasSRK, GasPR78, GasSTP, IdealGasLawVol: thermoProperties; applyPressure") { Q q = query(); int k = choose("model", 7); eos = k == 6 ? q.o : before("e"); asked = 0; if (k == 6 && choose("gas")) { q.s.setSubstanceClass(SubstanceClass::GASFLUID); eos.volume = quant(q.T / (q.P / 1e5) * 8.31451, 1 / (q.P / 1e5) * 8.31451, -q.T / (q.P * q.P) * 1e5 * 8.31451); }
    TPS r = gas(k, q, true); check("", r, q.T, q.P); chk("the equation of state is asked once", asked == (k == 6 ? 0 : 1)); double d = (q.P - q.Pr) / 1e5; eq("G gains V(P-Pr)", r.gibbs_energy.val, eos.gibbs_energy.val + eos.volume.val * d); eq("H gains V(P-Pr)", r.enthalpy.val, eos.enthalpy.val + eos.volume.val * d); same_field("V", r.volume, eos.volume); same_field("S", r.entropy, eos.entropy); same_field("Cp", r.heat_capacity_cp, eos.heat_capacity_cp); }
CONTRACT(gases_uncorrected, "GasCORK, GasPRSV, GasCGF, GasSRK, GasPR78, GasSTP, IdealGasLawVol: thermoProperties without the pressure correction") { Q q = query(); int k = choose("model", 7); eos = before("e"); TPS r = gas(k, q, false), x = k == 6 ? q.o : eos; for (auto& f : fields()) same_field(f.first, r.*f.second, x.*f.second); cover("end"); }
// --- aqueous species
static PropertiesSolvent anyw(const std::string& n) { PropertiesSolvent w = solvent(); w.density = any(n + "rho", 300, 1300); w.densityT = any(n + "rhoT", -3, -0.01); w.densityP = any(n + "rhoP", 1e-8, 1e-6); w.Alpha = any(n + "al", 1e-4, 1e-3); w.Beta = any(n + "be", 1e-10, 1e-9); w.dAldT = any(n + "da", 1e-6, 1e-5); w.Albe = any(n + "ab", 1e5, 1e6); return w; }
static ElectroPropertiesSolvent anye() { ElectroPropertiesSolvent e; e.bornZ = any("bZ", -0.1, -0.01); e.bornY = any("bY", -1e-4, -1e-6); e.bornQ = any("bQ", 1e-12, 1e-10); e.bornX = any("bX", -1e-6, 1e-6); e.bornU = any("bU", -1e-13, 1e-13); e.bornN = any("bN", -1e-19, 1e-19); e.epsilon = any("eps", 1, 100); return e; }
static ElectroPropertiesSubstance anyb() { ElectroPropertiesSubstance e; e.w = any("w", 1e4, 2e5); e.wT = any("wT", -100, 100); e.wP = any("wP", -1e-3, 1e-3); e.wTT = any("wTT", -10, 10); e.wTP = any("wTP", -1e-3, 1e-3); e.wPP = any("wPP", -1e-8, 1e-8); e.re = any("re", 1, 5); return e; }
static Q aqueous() { Q q; q.T = in("T", 300, 1200); q.P = in("P", 1e5, 5e8); fork_eq(false); in("bX", -1e-6, 1e-6); return q; }
CONTRACT(hkf_gems, "thermoPropertiesAqSoluteHKFgems") { Q q = aqueous(); auto w = anyw("s"); TT t(q.T); PP p(q.P); p /= 1e5; t -= 273.15; check("", thermoPropertiesAqSoluteHKFgems(t, p, ion(1, in("wr", 1e4, 1e5)), anyb(), anye(), w), q.T, q.P); }
CONTRACT(hkf_reaktoro, "thermoPropertiesAqSoluteHKFreaktoro") { Q q = aqueous(); auto w = anyw("s"); TT t(q.T); PP p(q.P); p /= 1e5; check("", thermoPropertiesAqSoluteHKFreaktoro(t, p, ion(1, in("wr", 1e4, 1e5)), anyb(), anye(), w), q.T, q.P); }
CONTRACT(hkf_models, "SoluteHKFgems::thermoProperties, SoluteHKFreaktoro::thermoProperties") { Q q = aqueous(); auto w = anyw("s"); int z = choose("charge", 3) - 1; Substance s = ion(z, in("wr", 1e4, 1e5), choose("hydrogen") ? "H+" : "Na+"); check("", choose("which") ? SoluteHKFgems(s).thermoProperties(q.T, q.P, w, anye()) : SoluteHKFreaktoro(s).thermoProperties(q.T, q.P, w, anye()), q.T, q.P); }
static Substance solute() { Substance s = solid(298.15, 1e5); ThermoParametersSubstance p; p.Cp_nonElectrolyte_coeff = {in("xi", -1, 1), in("aa", -20, 20), in("bb", -20, 20)}; p.solute_holland_powell98_coeff = {in("b", -1, 1)}; s.setThermoParameters(p); return s; }
CONTRACT(holland_powell, "SoluteHollandPowell98::thermoProperties, thermoPropertiesAqSoluteHP98") { Q q = aqueous(); auto w = anyw("s"), f = anyw("f"); check("", SoluteHollandPowell98(solute()).thermoProperties(q.T, q.P, f, w), q.T, q.P); }
CONTRACT(anderson, "SoluteAnderson91::thermoProperties, thermoPropertiesAqSoluteAN91") { Q q = aqueous(); auto w = anyw("s"), f = anyw("f"); check("", SoluteAnderson91(solute()).thermoProperties(q.T, q.P, f, w), q.T, q.P); }
CONTRACT(akinfiev_diamond, "SoluteAkinfievDiamondEOS::thermoProperties, thermoPropertiesAqSoluteAD") { Q q = aqueous(); auto w = anyw("s"), f = anyw("f"); check("", SoluteAkinfievDiamondEOS(solute()).thermoProperties(q.T, q.P, before("a"), before("w"), before("g"), w, before("x"), before("y"), f), q.T, q.P); }
// --- water: up to the constants of the triple point convention
static WaterThermoState wstate(double T, double P) { WaterThermoState s; TT t(T); PP p(P); s.temperature = t; s.pressure = p; s.density = any("rho", 300, 1300); s.volume = 1 / s.density; s.entropy = any("ws", 0, 1e4); s.helmholtz = any("wf", -1e6, 1e6); s.internal_energy = s.helmholtz + t * s.entropy; s.enthalpy = s.internal_energy + p / s.density; s.gibbs = s.enthalpy - t * s.entropy; s.cp = any("wcp", 1e3, 1e4); s.cv = any("wcv", 1e3, 1e4); return s; }
CONTRACT(water, "thermoPropertiesWaterHGKreaktoro, thermoPropertiesWaterWP95reaktoro") { Q q = aqueous(); WaterTripleProperties t; double S = t.Str = in("Str", 50, 80), U = t.Utr = in("Utr", -3e5, -2e5), H = t.Htr = in("Htr", -3e5, -2e5), A = t.Atr = in("Atr", -3e5, -2e5); t.Gtr = in("Gtr", -3e5, -2e5); WaterThermoState w = wstate(q.T, q.P); TPS r = choose("which") ? thermoPropertiesWaterHGKreaktoro(TT(q.T), w, t) : thermoPropertiesWaterWP95reaktoro(TT(q.T), w, t);
    UA("", r.internal_energy, r.helmholtz_energy, r.enthalpy, r.entropy, r.volume, q.T, q.P, U - H, A - U + 273.16 * S); cover("end"); }
CONTRACT(ideal_water, "WaterIdealGasWoolley::thermoProperties") { double T = in("T", 280, 2000), P = in("P", 1e5, 1e8), R = 8.31451; Substance s; TPS r = WaterIdealGasWoolley(s).thermoProperties(T, P); TS RT = quant(R * T, R, 0); eq("U=H-RT", r.internal_energy.val, r.enthalpy.val - R * T); eq("A=U-TS", r.helmholtz_energy.val, r.internal_energy.val - T * r.entropy.val); eq("U.ddt", r.internal_energy.ddt, r.enthalpy.ddt - R); eq("A.ddt", r.helmholtz_energy.ddt, r.internal_energy.ddt - r.entropy.val - T * r.entropy.ddt); cover("end"); }
// --- reactions
static Reaction reaction() { Reaction r; r.setSymbol("R"); r.setName("R"); r.setReferenceT(298.15); r.setReferenceP(1e5); auto p = r.thermoParameters(); auto c = [](const std::string& n, int k) { std::vector<double> v; for (int i = 0; i < k; ++i) v.push_back(in(n + std::to_string(i), -100, 100)); return v; }; p.reaction_logK_fT_coeff = c("a", 7); p.reaction_Cp_fT_coeff = c("c", 5); p.reaction_DM10_coeff = c("d", 5); p.reaction_FM_coeff = c("f", 7); p.reaction_RB_coeff = c("r", 3); r.setThermoParameters(p);
    TPR t; t.reaction_gibbs_energy = any("rG", -1e5, 1e5); t.reaction_enthalpy = any("rH", -1e5, 1e5); t.reaction_entropy = any("rS", -300, 300); t.reaction_volume = any("rV", 0.5, 50); t.reaction_heat_capacity_cp = any("rCp", -300, 300); t.log_equilibrium_constant = any("rK", -30, 30); t.ln_equilibrium_constant = any("rlnK", -70, 70); r.setThermoReferenceProperties(t); return r; }
static const M::type lgk[] = {M::CTM_LGK, M::CTM_LGX, M::CTM_EK0, M::CTM_EK1, M::CTM_EK2, M::CTM_EK3};
CONTRACT(logk, "Reaction_LogK_fT::thermoProperties, thermoPropertiesReaction_LogK_fT and the functions of each method") { Q q = aqueous(); Reaction r = reaction(); int n = choose("coefficients of logK", 2); if (n) { auto p = r.thermoParameters(); p.reaction_logK_fT_coeff.clear(); r.setThermoParameters(p); } check("", Reaction_LogK_fT(r).thermoProperties(q.T, q.P, lgk[choose("method", 6)]), q.T, q.P); }
CONTRACT(density_models, "ReactionDolejsManning10, ReactionFrantzMarshall, ReactionRyzhenkoBryzgalin: thermoProperties") { Q q = aqueous(); auto w = anyw("s"); Reaction r = reaction(); int k = choose("model", 3); check("", k == 0 ? ReactionDolejsManning10(r).thermoProperties(q.T, q.P, w) : k == 1 ? ReactionFrantzMarshall(r).thermoProperties(q.T, q.P, w) : ReactionRyzhenkoBryzgalin(r).thermoProperties(q.T, q.P, w), q.T, q.P); }
// --- whole queries: records evaluated by the engine over the real models
static Substance record(const std::string& n, int p) { Q q; Substance s = solid(298.15, 1e5); s.setSymbol(n); s.setName(n); s.setFormula("Ca"); s.setSubstanceClass(SubstanceClass::COMPONENT); s.setAggregateState(AggregateState::CRYSTAL); s.setThermoCalculationType(SubstanceThermoCalculationType::DCOMP); s.setMethodGenEoS(MethodGenEoS_Thrift::CTPM_CPT); s.setMethod_T(MethodCorrT_Thrift::CTM_CHP); if (p) s.setMethod_P((MethodCorrP_Thrift::type)p);
    TPS r; for (auto& f : fields()) r.*f.second = any(n + f.first, 1, 100); s.setThermoReferenceProperties(r); ThermoParametersSubstance t; t.temperature_intervals = {{1, 1e5}}; t.Cp_coeff = {{in(n + "c0", -100, 100), in(n + "c1", -1, 1), in(n + "c2", -1e5, 1e5)}}; t.m_landau_phase_trans_props = {in(n + "Tc", 50, 1200), in(n + "Smax", 1, 30), in(n + "Vmax", 0.001, 0.2)}; t.isobaric_expansivity = in(n + "alpha", 0.5, 20); t.isothermal_compresibility = in(n + "kappa", 100, 5000); for (int i = 0; i < 5; ++i) t.volume_coeff.push_back(in(n + "v" + std::to_string(i + 1), -1, 1)); s.setThermoParameters(t); return s; }
typedef MethodCorrP_Thrift MP; static const int vol[] = {MP::CPM_CON, MP::CPM_CEH, MP::CPM_VBE, MP::CPM_OFF, MP::CPM_PRSV};
CONTRACT(engine_substance, "ThermoEngine::thermoPropertiesSubstance over the models of minerals and gases") { Q q = aqueous(); Database db; int k = choose("volume", 5); Substance s = record("A", vol[k]); if (choose("temperature model")) s.setMethod_T(MethodCorrT_Thrift::CTM_CST); if (k > 2) s.setSubstanceClass(SubstanceClass::GASFLUID); db.addSubstance(s); eos = before("e"); ThermoEngine e(db); e.preferences().apply_pressure_correction_to_gas_props = true; e.preferences().enable_memoize = choose("cache"); double P = q.P; check("", e.thermoPropertiesSubstance(q.T, P, "A"), q.T, q.P); }
CONTRACT(engine_reaction_from_components, "ThermoEngine::thermoPropertiesReaction, thermoPropertiesReactionFromReactants over the models of minerals and gases") { Q q = aqueous(); Database db; int k = choose("volume", 5); Substance a = record("A", vol[0]), b = record("B", vol[k]); if (k > 2) b.setSubstanceClass(SubstanceClass::GASFLUID); db.addSubstance(a); db.addSubstance(b); Reaction r; r.setSymbol("R"); r.setName("R"); r.setReactants({{"A", in("na", -5, 5)}, {"B", in("nb", -5, 5)}}); db.addReaction(r); eos = before("e"); ThermoEngine e(db); double P = q.P; check("", e.thermoPropertiesReaction(q.T, P, "R"), q.T, q.P); }
CONTRACT(engine_reaction, "ThermoEngine::thermoPropertiesReaction: pressure correction of a reaction") { Q q = aqueous(); Database db; Reaction r = reaction(); r.setReactants({{"A", -1}}); r.setMethod_T(lgk[choose("method", 6)]); if (choose("pressure correction")) r.setMethod_P(choose("kind") ? MP::CPM_CON : MP::CPM_NUL); db.addReaction(r); ThermoEngine e(db); double P = q.P; check("", e.thermoPropertiesReaction(q.T, P, "R"), q.T, q.P); }
CONTRACT(engine_dependent, "ThermoEngine::thermoPropertiesSubstance of a substance defined through a reaction") { Q q = aqueous(); Database db; Reaction r = reaction(); r.setReactants({{"X", in("nx", 0.5, 5)}, {"A", in("na", -5, 5)}}); r.setMethod_T(lgk[choose("method", 2)]); r.setMethod_P(MP::CPM_CON); db.addReaction(r); db.addSubstance(record("A", MP::CPM_CON)); Substance x = record("X", 0); x.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); x.setReactionSymbol("R"); db.addSubstance(x); ThermoEngine e(db); double P = q.P; check("", e.thermoPropertiesSubstance(q.T, P, "X"), q.T, q.P); }
// in the steam tables convention nothing but the equation of state is left
static double Tq, Pq;
namespace ThermoFun { auto waterThermoStateHGK(Reaktoro_::Temperature T, Reaktoro_::Pressure P, int) -> WaterThermoState { return wstate(T.val, P.val); } auto waterThermoStateWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::Pressure P, int) -> WaterThermoState { return wstate(T.val, P.val); } }
CONTRACT(steam_tables, "ThermoEngine::thermoPropertiesSubstance of water, WaterHGKreaktoro, WaterWP95reaktoro; toSteamTables") { Q q = aqueous(); Database db; Substance w = record("H2O@", 0); w.setSubstanceClass(SubstanceClass::AQSOLVENT); w.setAggregateState(AggregateState::AQUEOUS); w.setMethodGenEoS(MethodGenEoS_Thrift::CTPM_WJNR); w.setMethod_T(choose("model") ? MethodCorrT_Thrift::CTM_WAR : MethodCorrT_Thrift::CTM_WWP); db.addSubstance(w); db.conventions().water_triple_point_reference = choose("triple point") ? "HKF_HGK_1974" : "NEA_HGK"; ThermoEngine e(db); e.conventions().water_properties = "STEAM_TABLES"; double P = q.P; TPS r = e.thermoPropertiesSubstance(q.T, P, "H2O@");
    auto near = [&](const char* o, double a, double b, double scale) { eqz(o, a - b, scale); }; double b = q.P / 1e5, T = q.T; const TS &U = r.internal_energy, &A = r.helmholtz_energy, &H = r.enthalpy, &S = r.entropy, &V = r.volume, &G = r.gibbs_energy; eq("U=H-PV", U.val, H.val - b * V.val); eq("A=U-TS", A.val, U.val - T * S.val); eq("G=H-TS", G.val, H.val - T * S.val); eq("U.ddt", U.ddt, H.ddt - b * V.ddt); eq("U.ddp", U.ddp, H.ddp - b * V.ddp - V.val / 1e5); eq("A.ddt", A.ddt, U.ddt - T * S.ddt - S.val); eq("A.ddp", A.ddp, U.ddp - T * S.ddp); eq("G.ddt", G.ddt, H.ddt - T * S.ddt - S.val); eq("G.ddp", G.ddp, H.ddp - T * S.ddp); cover("end"); }

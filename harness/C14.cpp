// C14: a substance defined through a reaction gets the properties that make the sum over the reaction's
// components equal to the reaction's properties.
#include "engine.hpp"
static void inverts(int kind) {   // 0: dependent by its record, 1: no methods, 2: only the constant volume correction
    start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8), P0 = P; int n = choose("others", 3); bool cached = choose("cache"), pref = choose("pref"); Database db; std::map<std::string, double> nu; std::vector<std::string> names = {"A", "Z"};
    for (int i = 0; i < n; ++i) { db.addSubstance(record(names[i], G_::CTPM_CPT, 0, i ? P_::CPM_PRSV : 0)); nu[names[i]] = in("nu" + names[i], -20, 20); }
    double nx = in("nuX", 0.25, 20) * (choose("negative") ? -1 : 1); nu["X"] = nx; Substance x = record("X", kind == 0 && choose("with a model") ? (int)G_::CTPM_HKF : 0, 0, kind == 2 ? (int)P_::CPM_CON : 0, SubstanceClass::AQSOLUTE); if (kind == 0) x.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); x.setReactionSymbol("R"); db.addSubstance(x); db.addSubstance(water());
    int rp = kind == 2 ? choose("reaction P method", 2) : 0; Reaction r; r.setSymbol("R"); r.setReactants(nu); r.setMethod_T(T_::CTM_LGK); if (rp) r.setMethod_P(P_::CPM_OFF); db.addReaction(r); ThermoEngine e(db); e.preferences().enable_memoize = cached; e.preferences().apply_pressure_correction_to_gas_props = pref;
    TPS t = e.thermoPropertiesSubstance(T, P, "X"); auto& w = *world(); std::map<std::string, TPS> c; TPR tr; int nr = 0, nc = 0, na = 0; TPS before, after; 
    for (auto& k : w.calls) { eq(k.model + " at the T of the query", k.T, T); eq(k.model + " at the P of the query", k.P, P0); if (k.model == "LGK") { tr = w.tpr[k.result]; ++nr; } else if (k.model == "CON") { ++nc; after = w.tps[k.result]; size_t i = 0; for (auto& f : fields()) { auto& q = before.*f.second; q.val = k.in[i++]; q.ddt = k.in[i++]; q.ddp = k.in[i++]; } } else { if (k.model == "PRSV") chk("gases are corrected", k.extra == "corrected"); else ++na; c[k.subst.substr(0, 1)] = w.tps[k.result]; } }
    chk("the reaction is evaluated once", nr == 1); chk("each other component is evaluated once", na == n && (int)c.size() == n); chk("constant volume correction applied as often as asked for", nc == (kind == 2 ? 1 : 0)); eq("P handed back", P, P0); chk("preference kept", e.preferences().apply_pressure_correction_to_gas_props == pref);
    if (kind == 2) same_tps("the correction is the last step", t, after); else before = t;
    for (size_t k = 0; k < fields().size(); ++k) { const ThermoScalar &q = before.*fields()[k].second, &s = tr.*rfields()[k].second; double v = nx * q.val, dt = nx * q.ddt, dp = nx * q.ddp; for (auto& y : c) { const ThermoScalar& z = y.second.*fields()[k].second; v += nu[y.first] * z.val; dt += nu[y.first] * z.ddt; dp += nu[y.first] * z.ddp; } std::string o = fields()[k].first; eq(o + ": sum over the components is the reaction's", v, s.val); eq(o + ".ddt: sum", dt, s.ddt); eq(o + ".ddp: sum", dp, s.ddp); } }
CONTRACT(dependent_substance, "thermoPropertiesSubstance, reacDCthermoProperties, thermoPropertiesReaction, getThermoPreferencesSubstance") { inverts(0); }
CONTRACT(substance_without_methods, "thermoPropertiesSubstance, reacDCthermoProperties") { inverts(1); }
CONTRACT(constant_volume, "thermoPropertiesSubstance, reacDCthermoProperties, fallbackThermoPropertiesSubstance") { inverts(2); }
// with its own pressure dependence in the reaction the constant volume correction is not applied again
CONTRACT(reaction_has_pressure_method, "reacDCthermoProperties") {
    start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8); Database db; Substance x = record("X", 0, 0, P_::CPM_CON); x.setReactionSymbol("R"); db.addSubstance(x); Reaction r; r.setSymbol("R"); r.setReactants({{"X", 1}}); r.setMethod_T(T_::CTM_DKR); r.setMethod_P(P_::CPM_NUL); db.addReaction(r); db.addSubstance(water()); ThermoEngine e(db); e.thermoPropertiesSubstance(T, P, "X"); int n = 0; for (auto& k : world()->calls) n += k.model == "CON"; chk("not applied again", n == 0); }
// the round trip: the reaction computed back from its components has its own properties
CONTRACT(round_trip, "reacDCthermoProperties, thermoPropertiesReactionFromReactants") {
    start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8); Database db; db.addSubstance(record("A", G_::CTPM_CPT, 0, P_::CPM_PRSV)); Substance x = record("X", G_::CTPM_CPT, 0, 0); x.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); x.setReactionSymbol("R"); db.addSubstance(x); Reaction r; r.setSymbol("R"); r.setReactants({{"A", in("nuA", -20, 20)}, {"X", in("nuX", 0.25, 20)}}); r.setMethod_T(T_::CTM_LGK); db.addReaction(r); ThermoEngine e(db); e.preferences().enable_memoize = choose("cache"); bool first = choose("queried before"); if (first) { e.thermoPropertiesSubstance(T, P, "A"); e.thermoPropertiesSubstance(T, P, "X"); }
    TPR a = e.thermoPropertiesReaction(T, P, "R"), b = e.thermoPropertiesReactionFromReactants(T, P, "R"); for (auto& f : rfields()) same_field(f.first, b.*f.second, a.*f.second); }
CONTRACT(no_reaction, "reacDCthermoProperties") {
    start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8); Database db; db.addSubstance(record("X", 0, 0, choose("con") ? (int)P_::CPM_CON : 0)); Substance y = record("Y", 0, 0, 0); y.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); db.addSubstance(y); ThermoEngine e(db); same_tps("reference properties", e.thermoPropertiesSubstance(T, P, "X"), db.getSubstance("X").thermoReferenceProperties()); chk("no model is run", world()->calls.empty()); bool thrown = false; try { e.thermoPropertiesSubstance(T, P, "Y"); } catch (std::exception&) { thrown = true; } chk("a dependent substance without a reaction is an error", thrown); }

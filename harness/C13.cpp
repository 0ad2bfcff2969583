// C13: reaction properties from the components are the stoichiometric sums.
#include "engine.hpp"
// the accumulators after the last component, from the arbitrary ones the components before left
static void sums(int how) {
    start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8), P0 = P; int n = 1 + choose("components", 3); Database db; std::map<std::string, double> nu; std::vector<std::string> names = {"A", "B", "C"};
    for (int i = 0; i < n; ++i) { db.addSubstance(record(names[i], G_::CTPM_CPT, 0, 0)); nu[names[i]] = in("nu" + names[i], -20, 20); }
    Reaction r; r.setSymbol("R"); r.setName("R"); r.setReactants(nu); if (how == 1) { r.setMethod_T(T_::CTM_LGK); } db.addReaction(r); ThermoEngine e(db); bool cached = choose("cache"); e.preferences().enable_memoize = cached;
    TPR t = how == 0 ? e.thermoPropertiesReaction(T, P, "R") : how == 1 ? e.thermoPropertiesReactionFromReactants(T, P, "R") : e.thermoPropertiesReactionFromReactants(T, P, r);
    auto& w = *world(); chk("each component is evaluated once", (int)w.calls.size() == n); std::map<std::string, TPS> c; for (auto& k : w.calls) { c[k.subst.substr(0, 1)] = w.tps[k.result]; eq("T of " + k.subst, k.T, T); eq("P of " + k.subst, k.P, P); } eq("P handed back", P, P0);
    for (size_t k = 0; k < rfields().size(); ++k) { double v = 0, dt = 0, dp = 0; for (auto& x : c) { const ThermoScalar& q = x.second.*fields()[k].second; v += nu[x.first] * q.val; dt += nu[x.first] * q.ddt; dp += nu[x.first] * q.ddp; } const ThermoScalar& a = t.*rfields()[k].second; std::string o = rfields()[k].first; eq(o + " is the sum", a.val, v); eq(o + ".ddt is the sum", a.ddt, dt); eq(o + ".ddp is the sum", a.ddp, dp); }
    const ThermoScalar &g = t.reaction_gibbs_energy, &l = t.ln_equilibrium_constant, &d = t.log_equilibrium_constant; eq("lnK=-G/RT", l.val, -g.val / (8.31451 * T)); eq("lnK.ddt", l.ddt, -g.ddt / (8.31451 * T) + g.val / (8.31451 * T * T)); eq("lnK.ddp", l.ddp, -g.ddp / (8.31451 * T)); eqc("log10K=lnK/ln10", d.val * std::log(double(10)), l.val, 1e-8); eqc("log10K.ddt", d.ddt * std::log(double(10)), l.ddt, 1e-8); eqc("log10K.ddp", d.ddp * std::log(double(10)), l.ddp, 1e-8); }
CONTRACT(from_components, "thermoPropertiesReaction, thermoPropertiesReactionFromReactants, Database::getReaction, Database::getSubstance") { sums(0); }
CONTRACT(from_components_of_a_reaction_with_a_method, "thermoPropertiesReactionFromReactants(symbol)") { sums(1); }
CONTRACT(from_components_of_a_record, "thermoPropertiesReactionFromReactants(Reaction)") { sums(2); }
// a multiple of a reaction has the multiple of its properties
CONTRACT(scaled, "thermoPropertiesReactionFromReactants") {
    start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8), f = in("factor", -10, 10); Database db; std::map<std::string, double> nu, nu2; for (std::string s : {"A", "B"}) { db.addSubstance(record(s, G_::CTPM_CPT, 0, 0)); nu[s] = in("nu" + s, -20, 20); nu2[s] = f * nu[s]; }
    Reaction a, b; a.setSymbol("R"); a.setReactants(nu); b.setSymbol("Q"); b.setReactants(nu2); ThermoEngine e(db); TPR x = e.thermoPropertiesReaction(T, P, a), y = e.thermoPropertiesReaction(T, P, b);
    for (auto& q : rfields()) { eq(q.first, (y.*q.second).val, f * (x.*q.second).val); eq(q.first + ".ddt", (y.*q.second).ddt, f * (x.*q.second).ddt); eq(q.first + ".ddp", (y.*q.second).ddp, f * (x.*q.second).ddp); } eq("lnK", y.ln_equilibrium_constant.val, f * x.ln_equilibrium_constant.val); eq("log10K", y.log_equilibrium_constant.val, f * x.log_equilibrium_constant.val); }
// gases enter a reaction with their pressure correction, whatever the preference, and the preference survives
CONTRACT(gas_components, "thermoPropertiesReactionFromReactants, preferences") {
    start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8); Database db; db.addSubstance(record("A", G_::CTPM_CPT, 0, P_::CPM_PRSV)); Reaction r; r.setSymbol("R"); r.setReactants({{"A", 2}}); ThermoEngine e(db); bool pref = choose("pref"); e.preferences().apply_pressure_correction_to_gas_props = pref; 
    if (choose("queried before")) e.thermoPropertiesSubstance(T, P, "A"); TPR t = e.thermoPropertiesReaction(T, P, r); auto& w = *world(); chk("corrected", w.calls.back().extra == "corrected"); eq("G", t.reaction_gibbs_energy.val, 2 * w.tps[w.calls.back().result].gibbs_energy.val); chk("preference kept", e.preferences().apply_pressure_correction_to_gas_props == pref); }

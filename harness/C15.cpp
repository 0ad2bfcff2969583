// C15: caching never changes a result.
#include "engine.hpp"
#include "ThermoFun/OptimizationUtils.h"
// --- the memoising wrappers: every state of a cache of up to n results (the keys in it, in the order they were put
// in, are reached by querying them in that order), then a query of any key, then all of them again
static int live; struct Res { double v; Res(double x = 0) : v(x) { ++live; } Res(const Res& o) : v(o.v) { ++live; } Res& operator=(const Res& o) { v = o.v; return *this; } ~Res() { --live; } };
typedef std::function<Res(bool, double, double&, std::string)> Fn;
struct Key { bool b; double T, P; std::string s; };
static std::vector<Key> keys(int diff) { int up = choose("the keys' order", 2); std::vector<Key> k; for (int i = 0; i < 4; ++i) { std::string n = std::to_string(i); double x = up ? 300 + 10 * i : 400 - 7 * i; k.push_back({diff == 0 ? i % 2 == 1 : false, diff == 1 || (diff == 0 && i > 1) ? x : double(300), diff == 2 ? x : double(5), diff == 3 ? n : "s"}); } return k; }
static double value(const Key& k) { double t = k.T * 3 + k.P * k.P + (k.b ? 100 : 0); for (char c : k.s) t = t * 2 + c; return t; }
static void wrapper(int n) {   // n < 0: no bound
    live = 0; fork_eq(false); int diff = choose("what the keys differ in", 4); auto k = keys(diff); int calls = 0; Fn f, m; bool nested = choose("the function uses its own cache"); 
    f = [&](bool b, double T, double& P, std::string s) { ++calls; Key q{b, T, P, s}; if (nested && calls % 2 == 1) { double p = k[0].P; m(k[0].b, k[0].T, p, k[0].s); } double v = value(q); P = P + T; return Res(v); };
    m = n < 0 ? memoize(f) : memoizeN(f, n); Fn copy = m; int filled = choose("results in the cache", 4); std::vector<int> order; for (int i = 0; i < filled; ++i) order.push_back(i); order.push_back(choose("then", 4)); for (int i = 0; i < 4; ++i) order.push_back(i);
    for (size_t i = 0; i < order.size(); ++i) { auto& q = k[order[i]]; double P = q.P; Fn& g = i % 2 ? copy : m; { Res r = g(q.b, q.T, P, q.s); eq("result", r.v, value(q)); eq("value handed back", P, q.P + q.T); } if (n >= 0) chk("no more results are held than stated", live <= n); } m = nullptr; copy = nullptr; f = nullptr; }
CONTRACT(bounded_memoize, "memoize") { wrapper(-1); }
CONTRACT(bounded_memoizeN_0, "memoizeN") { wrapper(0); }
CONTRACT(bounded_memoizeN_1, "memoizeN") { wrapper(1); }
CONTRACT(bounded_memoizeN_2, "memoizeN") { wrapper(2); }
CONTRACT(bounded_memoizeN_3, "memoizeN") { wrapper(3); }
// --- the engine
struct Result { TPS s; TPR r; PropertiesSolvent p; ElectroPropertiesSolvent e; double P; };
static int state;
static Result query(ThermoEngine& e, int kind, double T, double P) { Result o; o.p = PropertiesSolvent(); switch (kind) { case 0: o.s = e.thermoPropertiesSubstance(T, P, "A"); break; case 1: o.s = e.thermoPropertiesSubstance(T, P, "Q"); break; case 2: o.s = e.thermoPropertiesSubstance(T, P, "H2O@"); break; case 3: o.p = e.propertiesSolvent(T, P, "H2O@", state); break; case 4: o.e = e.electroPropertiesSolvent(T, P, "H2O@", state); break;
    case 5: o.r = e.thermoPropertiesReaction(T, P, "R"); break; case 6: o.r = e.thermoPropertiesReaction(T, P, "D"); break; case 7: o.s = e.thermoPropertiesSubstance(T, P, "X"); break; default: o.r = e.thermoPropertiesReactionFromReactants(T, P, "D"); } o.P = P; return o; }
static void compare(const Result& a, const Result& b) { same_tps("substance", a.s, b.s); for (auto& f : rfields()) same_field("reaction." + f.first, a.r.*f.second, b.r.*f.second); same_field("reaction.lnK", a.r.ln_equilibrium_constant, b.r.ln_equilibrium_constant); same_field("reaction.log10K", a.r.log_equilibrium_constant, b.r.log_equilibrium_constant);
    same_field("density", a.p.density, b.p.density); same_field("densityT", a.p.densityT, b.p.densityT); same_field("densityP", a.p.densityP, b.p.densityP); same_field("alpha", a.p.Alpha, b.p.Alpha); same_field("beta", a.p.Beta, b.p.Beta); same_field("epsilon", a.e.epsilon, b.e.epsilon); same_field("bornZ", a.e.bornZ, b.e.bornZ); same_field("bornY", a.e.bornY, b.e.bornY); eq("pressure handed back", a.P, b.P); }
static Database data() { Database db; Substance gas = record("A", G_::CTPM_CPT, 0, P_::CPM_PRSV, SubstanceClass::GASFLUID); gas.setAggregateState(AggregateState::GAS); db.addSubstance(gas); db.addSubstance(record("Q", G_::CTPM_HKF, 0, 0, SubstanceClass::AQSOLUTE)); db.addSubstance(water()); Substance w2 = water(G_::CTPM_WJNG, T_::CTM_WWP); w2.setSymbol("W2"); w2.setName("W2"); db.addSubstance(w2);
    Substance x = record("X", G_::CTPM_CPT, 0, 0); x.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); x.setReactionSymbol("D"); db.addSubstance(x); Reaction r; r.setSymbol("R"); r.setName("R"); r.setReactants({{"A", in("nuA", -20, 20)}, {"Q", in("nuQ", -20, 20)}}); db.addReaction(r); Reaction d; d.setSymbol("D"); d.setName("D"); d.setReactants({{"A", in("nuA", -20, 20)}, {"X", in("nuX", 0.25, 20)}}); d.setMethod_T(T_::CTM_DKR); db.addReaction(d);
    return db; }
enum Change { NONE, GASCORR, FALLBACK, SOLVENT, APPARENT, WATERCONV, SIZE, OFFON, PREFS, APPEND, NCHANGES };
static void change(ThermoEngine& e, int c) { switch (c) { case GASCORR: e.preferences().apply_pressure_correction_to_gas_props ^= true; break; case FALLBACK: e.preferences().fallback_to_reference_properties ^= true; break; case SOLVENT: e.setSolventSymbol("W2"); break; case APPARENT: e.conventions().apparent_properties = "BERMAN_BROWN"; break; case WATERCONV: e.conventions().water_properties = "STEAM_TABLES"; break; case SIZE: e.preferences().max_cache_size = 1; break; case OFFON: e.preferences().enable_memoize ^= true; break;
    case PREFS: { EnginePreferences p = e.preferences(); p.solvent_symbol = "W2"; p.fallback_to_reference_properties ^= true; e.setPreferences(p); break; }
    case APPEND: e.appendData(std::vector<std::string>{R"({"symbol":"A","name":"A2","formula":"A","aggregate_state":{"0":"AS_GAS"},"class_":{"1":"SC_GASFLUID"},"Tst":298.15,"Pst":100000,"sm_heat_capacity_p":{"values":[7]},"TPMethods":[{"method":{"0":"cp_ft_equation"}}]})", R"({"symbol":"H2O@","name":"other water","formula":"H2O@","aggregate_state":{"4":"AS_AQUEOUS"},"class_":{"3":"SC_AQSOLVENT"},"Tst":298.15,"Pst":100000,"TPMethods":[{"method":{"25":"water_diel_jnort91_reaktoro"}},{"method":{"32":"water_eos_iapws95_reaktoro"}}]})"}, "substance"); break; } }
static void history(int kind) {
    start(); double T = in("T", 273, 2000), P = choose("at saturation") ? double(0) : in("P", 1e5, 5e8); world()->undefined = choose("models leave everything undefined") ? 9 : 0; Database db = data(); ThermoEngine e(db), u(db); u.preferences().enable_memoize = false; int before = choose("settings before", 4); if (before & 1) for (auto x : {&e, &u}) { change(*x, GASCORR); change(*x, FALLBACK); } if (before & 2) for (auto x : {&e, &u}) { change(*x, APPARENT); change(*x, WATERCONV); } int size = choose("cache size", 3); if (size < 2) e.preferences().max_cache_size = size; int c = choose("change", NCHANGES); int between = choose("query in between", 3); state = kind == 3 || kind == 4 ? choose("state", 3) - 1 : 0;
    query(e, kind, T, P); if (between) query(e, between == 1 ? 5 : 0, between == 1 ? T : in("T2", 273, 2000), P); change(e, c); if (c != OFFON && c != SIZE) change(u, c); int how = choose("asked of", 2);
    if (how == 0) { Result a = query(e, kind, T, P); compare(a, query(u, kind, T, P)); Result a2 = query(e, kind, T, P); compare(a2, a); }
    else { ThermoEngine cp(e); change(e, c == FALLBACK ? APPARENT : FALLBACK); compare(query(cp, kind, T, P), query(u, kind, T, P)); } }
#define H(N, K) CONTRACT(N, "ThermoEngine, set_fn, memoize, memoizeN, appendData, setSolventSymbol, setPreferences") { history(K); }
H(gas, 0) H(aqueous, 1) H(water_substance, 2) H(solvent, 3) H(electro, 4) H(reaction_from_components, 5) H(reaction_with_model, 6) H(dependent_substance, 7) H(reaction_from_components_of_a_modelled_reaction, 8)

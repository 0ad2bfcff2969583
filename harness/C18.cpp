// C18: batch results equal single queries, in the stated order and units.
#include "batch.hpp"
static Database data() { Database db; db.addSubstance(record("A", G_::CTPM_CPT, 0, P_::CPM_PRSV, SubstanceClass::GASFLUID)); db.addSubstance(record("Q", G_::CTPM_HKF, 0, 0, SubstanceClass::AQSOLUTE)); db.addSubstance(water()); Reaction r; r.setSymbol("R"); r.setName("R"); r.setReactants({{"A", in("nuA", -20, 20)}, {"Q", in("nuQ", -20, 20)}}); db.addReaction(r); Reaction d; d.setSymbol("D"); d.setName("D"); d.setReactants({{"A", in("nuA", -20, 20)}}); d.setMethod_T(T_::CTM_DKR); db.addReaction(d); return db; }
template<class S> struct Q_; 
template<> struct Q_<TPS> { static const std::vector<std::pair<str, ThermoScalar TPS::*>>& props() { return SPROPS; } static TPS ask(ThermoEngine& e, bool, double T, double& P, const str& s) { return e.thermoPropertiesSubstance(T, P, s); } template<class... A> static Output run(ThermoBatch& b, A... a) { return b.thermoPropertiesSubstance(a...); } static std::vector<str> symbols() { return {"A", "Q", "H2O@"}; } };
template<> struct Q_<TPR> { static const std::vector<std::pair<str, ThermoScalar TPR::*>>& props() { return RPROPS; } static TPR ask(ThermoEngine& e, bool reactants, double T, double& P, const str& s) { return reactants ? e.thermoPropertiesReactionFromReactants(T, P, s) : e.thermoPropertiesReaction(T, P, s); } template<class... A> static Output run(ThermoBatch& b, A... a) { return b.thermoPropertiesReaction(a...); } static std::vector<str> symbols() { return {"R", "D"}; } };
typedef std::vector<vec> vvec;
// the results of the batch are those of single queries: symbol by symbol, or pair by pair
template<class S> static void results(const str& ob, Output& o, ThermoBatch& b, ThermoEngine& u, const std::vector<str>& sy, const std::vector<std::pair<str, ThermoScalar S::*>>& pr, const vvec& pairs, const UnitOf& ut, const UnitOf& up, bool reactants) {
    auto R = b.results(); auto V = o.to2DVectorDouble(); size_t n = pairs.size(), m = sy.size(); chk(ob + ": one result for each combination", R.size() == n * m && V.size() == n * m); if (R.size() != n * m || V.size() != n * m) return; auto left = b.TPpairs(); chk(ob + ": the pairs are kept", left.size() == n); if (left.size() != n) return;
    for (size_t k = 0; k < n; ++k) { double T = to_engine(ut, pairs[k][0]), P = to_engine(up, pairs[k][1]); std::vector<S> q(m); size_t at = m; double ps = P; if (vf::equal(P, 0)) { for (at = 0; at < m; ++at) { double p = P; q[at] = Q_<S>::ask(u, reactants, T, p, sy[at]); if (!vf::equal(p, 0)) { ps = p; break; } } }
        for (size_t i = 0; i < m; ++i) { if (i != at) { double p = ps; q[i] = Q_<S>::ask(u, reactants, T, p, sy[i]); } size_t index = b.preferences().loopOverTPpairsFirst ? n * i + k : m * k + i; chk(ob + ": one value for each property", R[index].size() == pr.size() && V[index].size() == pr.size()); if (R[index].size() != pr.size() || V[index].size() != pr.size()) return; for (size_t j = 0; j < pr.size(); ++j) { same_field(ob + ": " + pr[j].first, R[index][j], q[i].*pr[j].second); chk(ob + ": status", R[index][j].sta.first == (q[i].*pr[j].second).sta.first); eq(ob + ": value", V[index][j], (q[i].*pr[j].second).val); } }
        eq(ob + ": temperature listed", left[k][0], pairs[k][0]); eq(ob + ": pressure listed", to_engine(up, left[k][1]), ps); }
    eq(ob + ": the single value", o.toDouble(), R[0][0].val); same_field(ob + ": the single quantity", o.toThermoScalar(), R[0][0]); }
template<class S> static std::vector<str> names(const std::vector<std::pair<str, ThermoScalar S::*>>& p) { std::vector<str> r; for (auto& x : p) r.push_back(x.first); return r; }
static double num(const str& n, int i, double lo, double w) { return lo + w * i + in(n + std::to_string(i), 0, 1) * w / 2; }
enum How { SINGLE, ONEPAIR, PAIRS, LISTS, RANGES, RANGES2 };
template<class S> static void batch(int how) {
    start(); bool second = how == RANGES2; if (second) how = RANGES; int style = how == RANGES ? 3 * second + choose("style", 3) : choose("style", 12); world()->undefined = style == 5 ? 9 : 0; Database db = data(); ThermoEngine u(db); u.preferences().enable_memoize = false; bool from = style / 3 % 2; ThermoEngine e(db); ThermoBatch b = from ? ThermoBatch(db) : ThermoBatch(e);
    BatchPreferences& p = b.preferences(); p.loopOverTPpairsFirst = choose("pairs first"); p.loopTemperatureThenPressure = how >= LISTS ? choose("temperature first") : true; bool reactants = p.reactionPropertiesFromReactants = std::is_same<S, TPR>::value && style % 4 < 2;
    std::vector<str> sy; { auto all = Q_<S>::symbols(); int k = how == SINGLE ? 1 : how == RANGES ? 1 + style % 2 : how == LISTS ? 1 + choose("number of symbols", 2) : 1 + choose("number of symbols", (int)all.size()); for (int i = 0; i < k; ++i) sy.push_back(all[(style + i) % all.size()]); } std::vector<std::pair<str, ThermoScalar S::*>> pr; { auto& all = Q_<S>::props(); for (int i = 0; i <= (how == SINGLE ? 0 : style % 2); ++i) pr.push_back(all[(style + 3 * i) % all.size()]); } auto ut = UT[style / 2 % 2]; auto up = UP[style % 3]; if (style / 4 % 2) b.setPropertiesUnits({"pressure", "temperature"}, {up.name, ut.name}); else { b.setPropertyUnit("temperature", ut.name); b.setPropertyUnit("pressure", up.name); }
    if (how == PAIRS && style % 2) Q_<S>::run(b, double(350), double(17), std::vector<str>{"A", "D"}[std::is_same<S, TPR>::value], pr[0].first);
    auto t = [&](int i) { return num("T", i, 300, 100); }; bool sat = choose("at saturation"); auto q = [&](int i) -> double { return sat && i == 0 ? double(0) : num("P", i, 10, 30) * double(UP[1].factor) / double(up.factor); }; vvec pairs;
    auto grid = [&](const vec& ts, const vec& ps) { if (p.loopTemperatureThenPressure) for (auto x : ts) for (auto y : ps) pairs.push_back({x, y}); else for (auto y : ps) for (auto x : ts) pairs.push_back({x, y}); };
    if (how == SINGLE) { pairs = {{t(0), q(0)}}; Output o = Q_<S>::run(b, t(0), q(0), sy[0], pr[0].first); results<S>("one query", o, b, u, sy, pr, pairs, ut, up, reactants); }
    if (how == ONEPAIR) { pairs = {{t(0), q(0)}}; Output o = Q_<S>::run(b, t(0), q(0), sy, names<S>(pr)); results<S>("one pair", o, b, u, sy, pr, pairs, ut, up, reactants); }
    if (how == PAIRS) { int n = 1 + choose("pairs", 3); for (int i = 0; i < n; ++i) pairs.push_back({t(i % 2), q(i)}); Output o = Q_<S>::run(b, pairs, sy, names<S>(pr)); results<S>("pairs", o, b, u, sy, pr, pairs, ut, up, reactants); }
    if (how == LISTS) { int n = 1 + choose("temperatures", 2), m = 1 + choose("pressures", 3); vec ts, ps; for (int i = 0; i < n; ++i) ts.push_back(t(n - 1 - i)); for (int i = 0; i < m; ++i) ps.push_back(q(i)); grid(ts, ps); Output o = Q_<S>::run(b, ts, ps, sy, names<S>(pr)); results<S>("lists", o, b, u, sy, pr, pairs, ut, up, reactants); }
    if (how == RANGES) { auto range = [&](const str& n, double lo, double w, vec& v) { bool isT = n == "T"; int k = isT ? choose("steps of T", 3) : style % 3; double step = in("step" + n, 1, 2) * w, gap = (isT ? choose("whole steps of T") : choose("whole steps of P")) ? double(0) : in("gap" + n, 0.01, 0.99) * w; for (int i = 0; i <= k; ++i) v.push_back(lo + double(i) * step); if (k == 0 && vf::equal(gap, 0) && (!isT || choose("no step of T"))) step = 0; return std::make_pair(lo + double(k) * step + gap, step); }; vec ts, ps; double t0 = t(0), p0 = q(0), w = double(UP[1].factor) / double(up.factor);
        auto T = range("T", t0, 10, ts); auto P = range("P", p0, w, ps); b.setTemperatureIncrement(t0, T.first, T.second); b.setPressureIncrement(p0, P.first, P.second); grid(ts, ps); Output o = Q_<S>::run(b, sy, names<S>(pr)); results<S>("ranges", o, b, u, sy, pr, pairs, ut, up, reactants); }
    cover("end"); }
#define B(N, S, H) CONTRACT(bounded_##N, "ThermoBatch::thermoProperties*, calculate, addTPpairs, selectResults*, setProperty*, Output::to*") { batch<S>(H); }
B(substance_query, TPS, SINGLE) B(substances_one_pair, TPS, ONEPAIR) B(substances_pairs, TPS, PAIRS) B(substances_lists, TPS, LISTS) B(substances_ranges, TPS, RANGES) B(substances_more_ranges, TPS, RANGES2)
B(reaction_query, TPR, SINGLE) B(reactions_one_pair, TPR, ONEPAIR) B(reactions_pairs, TPR, PAIRS) B(reactions_lists, TPR, LISTS) B(reactions_ranges, TPR, RANGES) B(reactions_more_ranges, TPR, RANGES2)
CONTRACT(bounded_other_property, "selectResults*: a property the record does not have") { start(); ThermoBatch b(data()); const char* names[] = {"logKr", "density", "nonsense", "G"}; bool threw = false; str n = names[choose("name", 4)]; try { if (choose("kind")) b.thermoPropertiesReaction(300, 1e5, std::vector<str>{"R"}, std::vector<str>{"reaction_gibbs_energy", n == "logKr" ? "gibbs_energy" : n, "lnKr"}); else b.thermoPropertiesSubstance(300, 1e5, std::vector<str>{"A"}, std::vector<str>{n, "gibbs_energy"}); } catch (std::exception&) { threw = true; } auto R = b.results(); chk("is an error, or has a place of its own", threw || R[0].size() == (b.properties().size())); threw = false; try { b.thermoPropertiesSubstance(300, 1e5, "unknown", "gibbs_energy"); } catch (std::exception&) { threw = true; } chk("an unknown symbol is an error", threw); cover("end"); }
// results computed elsewhere, handed to the batch in the stated order
CONTRACT(bounded_given_results, "ThermoBatch::thermoProperties*(..., results), selectProvided*") { start(); ThermoBatch b(data()); b.preferences().loopOverTPpairsFirst = choose("pairs first"); bool lists = choose("lists"); std::vector<vec> pairs = {{300, 10}, {300, 20}}; auto check = [&](auto* kind, auto given, auto pr) { typedef std::remove_pointer_t<decltype(kind)> S; std::vector<str> sy = Q_<S>::symbols(); sy.resize(2); Output o = lists ? Q_<S>::run(b, vec{300}, vec{10, 20}, sy, names<S>(pr), given) : Q_<S>::run(b, pairs, sy, names<S>(pr), given); auto R = b.results(); chk("one result for each given", R.size() == 4); for (size_t i = 0; i < 4 && R.size() == 4; ++i) { chk("one value for each property", R[i].size() == pr.size()); for (size_t j = 0; j < pr.size() && R[i].size() == pr.size(); ++j) same_field(pr[j].first, R[i][j], given[i].*pr[j].second); } };
    if (choose("kind")) { std::vector<TPS> g; for (int i = 0; i < 4; ++i) g.push_back(incoming("g" + std::to_string(i))); check((TPS*)nullptr, g, some(SPROPS, "properties", 8)); } else { std::vector<TPR> g; for (int i = 0; i < 4; ++i) { TPR t; auto x = incoming("g" + std::to_string(i)); t.reaction_gibbs_energy = x.gibbs_energy; t.reaction_enthalpy = x.enthalpy; t.reaction_entropy = x.entropy; t.reaction_volume = x.volume; t.reaction_heat_capacity_cp = x.heat_capacity_cp; t.log_equilibrium_constant = x.internal_energy; t.ln_equilibrium_constant = x.helmholtz_energy; g.push_back(t); } check((TPR*)nullptr, g, some(RPROPS, "properties", 10)); } cover("end"); }

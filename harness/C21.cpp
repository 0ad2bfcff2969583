// C21: a database returns what was put in, by symbol.
#include "subst.hpp"
#include "ThermoFun/Database.h"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/Element.h"
#include "ThermoFun/ThermoParameters.h"
#include "ChemicalFun/FormulaParser/ChemicalData.h"
#include "ThermoFun/Common/ParseJsonToData.h"
typedef std::string str; typedef ThermoPropertiesReaction TPR;
// --- records: every field holds what was last stored in it, and a copy is a value of its own
template<class S> struct Field { str name; std::function<void(S&, int)> set; std::function<double(const S&)> get; std::function<str(const S&)> text; std::function<str(int)> want; };
static double num(const str& n, int g) { return in(n + std::to_string(g), 0.5 + g * 3, 3 + g * 3); }
#define NUM(S, set, get) Field<S>{#get, [](S& s, int g) { s.set(num(#get, g)); }, [](const S& s) { return s.get(); }, nullptr, nullptr}
#define TXT(S, set, get) Field<S>{#get, [](S& s, int g) { s.set(str(#get) + (g ? "1" : "0")); }, nullptr, [](const S& s) { return s.get(); }, [](int g) { return str(#get) + (g ? "1" : "0"); }}
#define INT(S, T, set, get) Field<S>{#get, [](S& s, int g) { s.set((T)(3 + g)); }, nullptr, [](const S& s) { return std::to_string((int)s.get()); }, [](int g) { return std::to_string(3 + g); }}
template<class S> static void keep(const std::vector<Field<S>>& fs) {
    fork_eq(false); S a; for (auto& f : fs) f.set(a, 0); auto is = [&](const str& ob, const S& s, int f, int g) { if (fs[f].get) eq(ob, fs[f].get(s), num(fs[f].name, g)); else chk(ob, fs[f].text(s) == fs[f].want(g), fs[f].name); };
    for (size_t f = 0; f < fs.size(); ++f) is("a field holds what was put in", a, f, 0); int how = choose("copied by", 3); S b; if (how == 1) b = a; S c(a); if (how == 2) b = std::move(c); const S& copy = how == 0 ? c : b; bool original = choose("which one is changed"); S& changed = original ? a : const_cast<S&>(copy); const S& other = original ? copy : a;
    int k = choose("field", (int)fs.size()); fs[k].set(changed, 1); for (size_t f = 0; f < fs.size(); ++f) { is("the field put in changes, no other", changed, f, (int)f == k ? 1 : 0); is("a copy does not change", other, f, 0); }
    S* self = &changed; changed = *self; is("assigned to itself", changed, k, 1); cover("end"); }
static TPS tps(double v) { TPS t; t.gibbs_energy = v; t.enthalpy = v + 1; t.entropy = v + 2; t.heat_capacity_cp = v + 3; t.volume = v + 4; return t; }
static TPR tpr(double v) { TPR t; t.ln_equilibrium_constant = v; t.reaction_gibbs_energy = v + 1; return t; }
CONTRACT(substance_record, "Substance: every setter and getter, copy, assignment") { typedef Substance S; std::vector<Field<S>> f = {TXT(S, setName, name), TXT(S, setSymbol, symbol), TXT(S, setFormula, formula), TXT(S, setReactionSymbol, reactionSymbol), TXT(S, setJsonString, jsonString), NUM(S, setMolarMass, molarMass), NUM(S, setLowerT, lowerT), NUM(S, setLowerP, lowerP), NUM(S, setUpperT, upperT), NUM(S, setUpperP, upperP), NUM(S, setReferenceT, referenceT), NUM(S, setReferenceP, referenceP),
        INT(S, MethodGenEoS_Thrift::type, setMethodGenEoS, methodGenEOS), INT(S, MethodCorrT_Thrift::type, setMethod_T, method_T), INT(S, MethodCorrP_Thrift::type, setMethod_P, method_P), INT(S, SubstanceClass::type, setSubstanceClass, substanceClass), INT(S, AggregateState::type, setAggregateState, aggregateState), INT(S, SubstanceThermoCalculationType::type, setThermoCalculationType, thermoCalculationType), INT(S, int, setCharge, charge),
        {"reference G", [](S& s, int g) { s.setThermoReferenceProperties(tps(num("reference G", g))); }, [](const S& s) -> double { auto t = s.thermoReferenceProperties(); eq("one set of properties", t.volume.val, t.gibbs_energy.val + 4); return t.gibbs_energy.val; }, nullptr, nullptr},
        {"HKF", [](S& s, int g) { ThermoParametersSubstance p; p.HKF_parameters = {num("HKF", g)}; p.Cp_coeff = {{1, num("HKF", g)}}; s.setThermoParameters(p); }, [](const S& s) -> double { auto p = s.thermoParameters(); eq("one set of parameters", p.Cp_coeff.at(0).at(1), p.HKF_parameters.at(0)); return p.HKF_parameters.at(0); }, nullptr, nullptr}}; keep(f); }
CONTRACT(reaction_record, "Reaction: every setter and getter, copy, assignment") { typedef Reaction S; std::vector<Field<S>> f = {TXT(S, setName, name), TXT(S, setSymbol, symbol), TXT(S, setEquation, equation), TXT(S, setJsonString, jsonString), NUM(S, setLowerT, lowerT), NUM(S, setLowerP, lowerP), NUM(S, setUpperT, upperT), NUM(S, setUpperP, upperP), NUM(S, setReferenceT, referenceT), NUM(S, setReferenceP, referenceP),
        INT(S, MethodGenEoS_Thrift::type, setMethodGenEoS, methodGenEOS), INT(S, MethodCorrT_Thrift::type, setMethod_T, method_T), INT(S, MethodCorrP_Thrift::type, setMethod_P, method_P),
        {"reactant", [](S& s, int g) { s.setReactants({{"A", num("reactant", g)}, {"B", 2}}); }, [](const S& s) -> double { auto m = s.reactants(); chk("the reactants", m.size() == 2); return m["A"]; }, nullptr, nullptr},
        {"reference K", [](S& s, int g) { s.setThermoReferenceProperties(tpr(num("reference K", g))); }, [](const S& s) -> double { auto t = s.thermo_ref_prop(); eq("one set of properties", t.reaction_gibbs_energy.val, t.ln_equilibrium_constant.val + 1); return t.ln_equilibrium_constant.val; }, nullptr, nullptr},
        {"RB", [](S& s, int g) { ThermoParametersReaction p; p.reaction_RB_coeff = {num("RB", g)}; s.setThermoParameters(p); }, [](const S& s) -> double { return s.thermoParameters().reaction_RB_coeff.at(0); }, nullptr, nullptr}}; keep(f); }
CONTRACT(element_record, "Element: every setter and getter, copy, assignment") { typedef Element S; std::vector<Field<S>> f = {TXT(S, setName, name), TXT(S, setSymbol, symbol), TXT(S, setJsonString, jsonString), NUM(S, setMolarMass, molarMass), NUM(S, setEntropy, entropy), NUM(S, setHeatCapacity, heatCapacity), NUM(S, setVolume, volume), INT(S, int, setValence, valence), INT(S, int, setClass, class_), INT(S, int, setIsotopeMass, isotopeMass), INT(S, int, setNumber, number)}; keep(f); }
static Element el(int i) { static const char* n[] = {"H", "Na", "N"}; Element e; e.setSymbol(n[i % 3]); e.setName(n[i / 3 % 3]); e.setClass(i / 9 % 2); e.setIsotopeMass(i / 18 % 2); e.setValence(i / 36 % 2); return e; }
CONTRACT(bounded_element_order, "operator<, operator== (Element)") { Element a = el(choose("a", 72)), b = el(choose("b", 72)); bool ab = a < b, ba = b < a; chk("not both before", !(ab && ba)); chk("one key for equal elements", (a == b && a.valence() == b.valence()) == (!ab && !ba)); std::map<Element, int> m; m[a] = 1; m[b] = 2; chk("found again", m[b] == 2 && m.size() == (ab || ba ? 2u : 1u)); cover("end"); }
CONTRACT(bounded_element_order_transitive, "operator< (Element)") { int key[3]; Element e[3]; for (int i = 0; i < 3; ++i) { key[i] = choose("e" + std::to_string(i), 8); e[i] = el(key[i] * 9); } chk("transitive", !(e[0] < e[1] && e[1] < e[2]) || e[0] < e[2]); cover("end"); }
// --- the database against a map from symbols to the record accepted last
struct Rec { double v = 0; str name; bool mutated = false; };
typedef std::map<str, Rec> Model;
template<class S> struct Kind;
template<> struct Kind<Element> { typedef Element S; static constexpr const char* label = "element", *plural = "elements"; static S make(const str& s, const Rec& r) { S e; e.setSymbol(s); e.setName(r.name); e.setEntropy(r.v); e.setValence(1); return e; } static str json(const str& s, const Rec& r) { return "{\"symbol\": \"" + s + "\", \"name\": \"" + r.name + "\", \"entropy\": {\"values\": [" + text(r.v) + "]}, \"class_\": {\"0\": \"ELEMENT\"}}"; } static double value(const S& e) { return e.entropy(); } static void put(S& e, double v) { e.setEntropy(v); }
    static void add(Database& d, const S& s) { d.addElement(s); } static void set(Database& d, const S& s) { d.setElement(s); } static void add(Database& d, const str& s) { d.addElement(s); } static void set(Database& d, const str& s) { d.setElement(s); } static void map(Database& d, const std::map<str, S>& m) { d.addMapElements(m); } static S& ref(Database& d, const str& s) { return d.element(s); } static const S& get(const Database& d, const str& s) { return d.getElement(s); } static bool has(const Database& d, const str& s) { return d.containsElement(s); } static std::vector<S> all(const Database& d) { return d.getElements(); } static std::vector<str> list(const Database& d) { return d.getElementsList(); } static const std::map<str, S>& mapped(const Database& d) { return d.mapElements(); } static size_t count(const Database& d) { return d.numberOfElements(); } };
template<> struct Kind<Substance> { typedef Substance S; static constexpr const char* label = "substance", *plural = "substances"; static S make(const str& s, const Rec& r) { S e; e.setSymbol(s); e.setName(r.name); e.setReferenceT(r.v); return e; } static str json(const str& s, const Rec& r) { return "{\"symbol\": \"" + s + "\", \"name\": \"" + r.name + "\", \"Tst\": " + text(r.v) + "}"; } static double value(const S& e) { return e.referenceT(); } static void put(S& e, double v) { e.setReferenceT(v); }
    static void add(Database& d, const S& s) { d.addSubstance(s); } static void set(Database& d, const S& s) { d.setSubstance(s); } static void add(Database& d, const str& s) { d.addSubstance(s); } static void set(Database& d, const str& s) { d.setSubstance(s); } static void map(Database& d, const std::map<str, S>& m) { d.addMapSubstances(m); } static S& ref(Database& d, const str& s) { return d.substance(s); } static const S& get(const Database& d, const str& s) { return d.getSubstance(s); } static bool has(const Database& d, const str& s) { return d.containsSubstance(s); } static std::vector<S> all(const Database& d) { return d.getSubstances(); } static std::vector<str> list(const Database& d) { return d.getSubstancesList(); } static const std::map<str, S>& mapped(const Database& d) { return d.mapSubstances(); } static size_t count(const Database& d) { return d.numberOfSubstances(); } };
template<> struct Kind<Reaction> { typedef Reaction S; static constexpr const char* label = "reaction", *plural = "reactions"; static S make(const str& s, const Rec& r) { S e; e.setSymbol(s); e.setName(r.name); e.setReferenceT(r.v); return e; } static str json(const str& s, const Rec& r) { return "{\"symbol\": \"" + s + "\", \"name\": \"" + r.name + "\", \"Tst\": " + text(r.v) + "}"; } static double value(const S& e) { return e.referenceT(); } static void put(S& e, double v) { e.setReferenceT(v); }
    static void add(Database& d, const S& s) { d.addReaction(s); } static void set(Database& d, const S& s) { d.setReaction(s); } static void add(Database& d, const str& s) { d.addReaction(s); } static void set(Database& d, const str& s) { d.setReaction(s); } static void map(Database& d, const std::map<str, S>& m) { d.addMapReactions(m); } static S& ref(Database& d, const str& s) { return d.reaction(s); } static const S& get(const Database& d, const str& s) { return d.getReaction(s); } static bool has(const Database& d, const str& s) { return d.containsReaction(s); } static std::vector<S> all(const Database& d) { return d.getReactions(); } static std::vector<str> list(const Database& d) { return d.getReactionsList(); } static const std::map<str, S>& mapped(const Database& d) { return d.mapReactions(); } static size_t count(const Database& d) { return d.numberOfReactions(); } };
static const char* symbols[] = {"Ag", "Ca", "B"};
template<class S> static void agrees(const str& who, const Database& d, const Model& m) { typedef Kind<S> K;
    chk(who + ": as many records as were put in", K::count(d) == m.size() && K::mapped(d).size() == m.size()); auto all = K::all(d); auto list = K::list(d); chk(who + ": all are listed", all.size() == m.size() && list.size() == m.size()); if (all.size() != m.size() || list.size() != m.size()) return; size_t i = 0;
    for (auto& [s, r] : m) { chk(who + ": listed by symbol", list[i] == s && all[i].symbol() == s, s); eq(who + ": listed record", K::value(all[i]), r.v); ++i; }
    for (str s : {"Ag", "Ca", "B", "", "ag"}) { auto it = m.find(s); bool has = it != m.end(); chk(who + ": contains what was put in, nothing else", K::has(d, s) == has, s); if (K::has(d, s) != has) return; if (has) { const S& x = K::get(d, s); chk(who + ": the record of the symbol", x.symbol() == s && x.name() == it->second.name, s); eq(who + ": the record put last", K::value(x), it->second.v); }
        else { bool threw = false; try { K::get(d, s); } catch (std::exception&) { threw = true; } chk(who + ": an unknown symbol is an error", threw, s); } }
    chk(who + ": looking up does not add", K::count(d) == m.size()); }
// the element data formulas are calculated with
static void formulas(const str& who, const Database& d, const Model& m) { for (auto& [s, r] : m) if (!r.mutated) eq(who + ": a formula uses the element put last", d.elementalEntropyFormula(s), r.v); }
enum Op { ADD, SET, ADDJ, SETJ, MAP, LOAD, ARRAY, APPEND, REF, UNCHANGED, NOPS };
template<class S> static void operate(Database& d, Model& m, int op, const str& s, const Rec& r, const Rec& r2) { typedef Kind<S> K; str t = s == "Ag" ? "Ca" : "Ag"; auto accept = [&](const str& x, const Rec& y, bool replace) { if (replace || !m.count(x)) m[x] = y; };
    switch (op) { case ADD: K::add(d, K::make(s, r)); accept(s, r, false); break; case SET: K::set(d, K::make(s, r)); accept(s, r, true); break; case ADDJ: K::add(d, K::json(s, r)); accept(s, r, false); break; case SETJ: K::set(d, K::json(s, r)); accept(s, r, true); break;
    case MAP: K::map(d, {{s, K::make(s, r)}, {t, K::make(t, r2)}}); accept(s, r, false); accept(t, r2, false); break; case LOAD: d.appendData("{\"" + str(K::plural) + "\": [" + K::json(s, r2) + ", " + K::json(t, r2) + ", " + K::json(s, r) + "]}"); accept(t, r2, true); accept(s, r, true); break;
    case ARRAY: d.appendData("[{\"_label\": \"" + str(K::label) + "\", \"properties\": " + K::json(s, r) + "}]"); accept(s, r, true); break; case APPEND: d.appendData(std::vector<str>{K::json(s, r)}, K::label); accept(s, r, true); break;
    case REF: { bool had = m.count(s); S& x = K::ref(d, s); if (!had) { chk("a record made by looking it up is empty and has its symbol", x.symbol() == s && x.name() == s); } K::put(x, r.v); Rec y = had ? m[s] : Rec{0, s}; y.v = r.v; y.mutated = true; m[s] = y; break; }
    default: { const Database& c = d; for (str q : {s, str("Zz")}) { try { S x = K::get(c, q); x.setName("other"); K::put(x, r.v); } catch (std::exception&) {} for (S x : K::all(c)) { x.setSymbol("Q"); K::put(x, r.v); } } } } }
static Rec rec(int k) { Rec r; r.v = in("v" + std::to_string(k), 1 + k * 10, 10 + k * 10); r.name = "n" + std::to_string(k); return r; }
template<class S> static void history(int n) { fork_eq(false); Database d; Model m; str what = Kind<S>::label; for (int i = 0; i < n; ++i) { str k = std::to_string(i); operate<S>(d, m, choose("operation" + k, NOPS), symbols[choose("symbol" + k, 2)], rec(2 * i), rec(2 * i + 1)); agrees<S>("database", d, m); if (what == "element") formulas("database", d, m); } 
    Database other; int how = choose("copy", 3); if (how == 0) other = d; Database copy(how == 1 ? d : other); Database& c = how == 2 ? (other = Database(d)) : how == 0 ? other : copy; Model before = m, mc = m; bool first = choose("the original changes"); operate<S>(first ? d : c, first ? m : mc, choose("last operation", 2) ? LOAD : REF, symbols[choose("last symbol", 2) * 2], rec(20), rec(21)); agrees<S>("original", d, m); agrees<S>("copy", c, mc); if (what == "element") { formulas("original", d, m); formulas("copy", c, mc); } cover("end"); }
CONTRACT(bounded_substances, "Database: substances") { history<Substance>(2); }
CONTRACT(bounded_reactions, "Database: reactions") { history<Reaction>(2); }
CONTRACT(bounded_elements, "Database: elements, setDBElements, elementalEntropyFormula") { history<Element>(2); }
CONTRACT(bounded_construct, "Database(string), Database(vector<string>), fromFile, fromJSONs, addRecords, appendData") { fork_eq(false); Model e, s, r; Rec a = rec(0), b = rec(1), c = rec(2), b2 = rec(3); int w = choose("from", 5); bool twice = choose("a symbol twice"), missing = choose("no reactions"); str E = Kind<Element>::json("Ag", a), S1 = Kind<Substance>::json("Ag", b), S2 = Kind<Substance>::json("Ca", b2), S3 = Kind<Substance>::json("Ag", b2), R = Kind<Reaction>::json("Ag", c);
    e["Ag"] = a; s["Ag"] = b; s["Ca"] = b2; if (twice) s["Ag"] = b2; if (!missing) r["Ag"] = c; auto item = [](const str& l, const str& p, bool wrapped) { return wrapped ? "{\"_label\": \"" + l + "\", \"_id\": \"x\", \"properties\": " + p + "}" : "{\"_label\": \"" + l + "\", " + p.substr(1); }; std::vector<str> items; bool wrapped = w % 2; items = {item("element", E, wrapped), item("substance", S1, wrapped), item("substance", S2, wrapped)}; if (twice) items.push_back(item("substance", S3, wrapped)); if (!missing) items.push_back(item("reaction", R, wrapped)); str joined; for (auto& i : items) joined += (joined.empty() ? "" : ",\n") + i;
    str doc = "{\"conventions\": {\"water_triple_point_reference\": \"NEA_HGK\"}, \"elements\": [" + E + "], \"substances\": [" + S1 + ", " + S2 + (twice ? ", " + S3 : str()) + "]" + (missing ? "" : ", \"reactions\": [" + R + "]") + "}"; Database d; if (w < 2) d = Database("[" + joined + "]"); else if (w < 4) d = Database(items, "unknown"); else d = Database(doc);
    agrees<Element>("elements", d, e); agrees<Substance>("substances", d, s); agrees<Reaction>("reactions", d, r); formulas("elements", d, e); chk("conventions", d.conventions().water_triple_point_reference == (w == 4 ? "NEA_HGK" : "HKF_HGK_1974")); cover("end"); }
CONTRACT(bounded_kinds, "Database: records of one kind do not touch the others") { fork_eq(false); Database d; Model e, s, r; for (int i = 0; i < 3; ++i) { str k = std::to_string(i); int kind = choose("kind" + k, 3), op = choose("operation" + k, 4); op = op == 0 ? ADD : op == 1 ? MAP : op == 2 ? LOAD : REF; if (kind == 0) operate<Element>(d, e, op, symbols[i % 2], rec(2 * i), rec(2 * i + 1)); else if (kind == 1) operate<Substance>(d, s, op, symbols[i % 2], rec(2 * i), rec(2 * i + 1)); else operate<Reaction>(d, r, op, symbols[i % 2], rec(2 * i), rec(2 * i + 1)); agrees<Element>("elements", d, e); agrees<Substance>("substances", d, s); agrees<Reaction>("reactions", d, r); } cover("end"); }
CONTRACT(bounded_unknown_label, "Database::appendData: a record of no kind") { Database d; bool threw = false; int w = choose("how", 2); try { if (w) d.appendData(std::vector<str>{"{\"symbol\": \"X\"}"}, "unknown label"); else d.appendData("[{\"symbol\": \"X\"}]"); } catch (std::exception&) { threw = true; } chk("is an error", threw); agrees<Substance>("after it", d, {}); threw = false; try { Database x("no such file.json"); } catch (std::exception&) { threw = true; } chk("a file that is not there is an error", threw); cover("end"); }

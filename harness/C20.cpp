// C20: what a record says and what the calculation gets. Numbers of a record are arbitrary; which fields it has, in which form, is enumerated.
#include "subst.hpp"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/Element.h"
#include "ThermoFun/Database.h"
#include "ThermoFun/Common/ParseJsonToData.h"
typedef std::string str; typedef std::vector<double> vec;
namespace ThermoFun { auto readConventions(const std::string& data) -> DatabaseConventions; }
// a quantity of a record: its field, the units it may be given in and what one of them is in the unit of the calculation
struct Unit { str name; double factor; double shift = 0; };
static const std::vector<Unit> JmolK = {{"J/K/mol", 1}, {"J/(mol*K)", 1}, {"J/(K*mol)", 1}, {"cal/(mol*K)", 4.184}, {"kJ/(mol*K)", 1000}}, Jmol = {{"J/mol", 1}, {"kJ/mol", 1000}, {"cal/mol", 4.184}, {"kcal/mol", 4184}}, Jbar = {{"J/bar", 1}, {"cm3", 0.1}, {"m3", 100000}, {"cal/bar", 4.184}}, one = {{"1", 1}}, gmol = {{"g/mol", 1}, {"kg/mol", 1000}, {"mg/mol", 0.001}};
static str quoted(const str& s) { return "\"" + s + "\""; }
static str array(const std::vector<str>& v) { str s = "["; for (auto& x : v) s += (s.size() > 1 ? ", " : "") + x; return s + "]"; }
static double number(const str& n, nat lo = -1e6, nat hi = 1e6) { return in(n, lo, hi); }
// how a field stands in a record: 0..5 with unit u, 10 absent, 11 without a value, 12 value null, 13 without unit, 14 unit null, 15 no error given, 16 error null, 17 null
enum { NoField = 10, NoValue, NullValue, NoUnit, NullUnit, NoError, NullError, EmptyValues };
static str field(const str& name, const str& value, const str& error, const std::vector<Unit>& u, int form) { str s; auto add = [&](const str& k, const str& v) { s += (s.empty() ? "" : ", ") + quoted(k) + ": [" + v + "]"; };
    if (form == NoField) return ""; if (form != NoValue) add("values", form == NullValue ? "null" : form == EmptyValues ? "" : value); if (error != "" && form != NoError && form != NullValue) add("errors", form == NullError ? "null" : error); if (form != NoUnit) add("units", form == NullUnit ? "null" : quoted(u[form < (int)u.size() ? form : 0].name)); return quoted(name) + ": {" + s + "}, "; }
static int form(const std::vector<Unit>& u) { int n = u.size(), k = choose("form", n + 8); return k < n ? k : NoField + (k - n); }
static double factor(const std::vector<Unit>& u, int form) { return form < (int)u.size() ? u[form].factor : double(1); }
static bool given(int form) { return form != NoField && form != NoValue && form != NullValue && form != EmptyValues; }
static bool has_error(int form) { return form != NoField && form != NoError && form != NullError && form != NullValue; }
template<class P> struct Prop { str name; ThermoScalar P::*member; const std::vector<Unit>* units; };
static void quantity_is(const str& n, const ThermoScalar& q, int form, double v, double e, double f) { if (given(form)) { eq("value", q.val, v * f); chk("marked as read", q.sta.first == Reaktoro_::Status::read, n); } else { eq("no value is zero", q.val, 0); chk("no value is not defined", q.sta.first == Reaktoro_::Status::notdefined, n); } if (given(form) || form == NoField) { if (has_error(form)) eq("error", q.err, e * f); else eq("no error is zero", q.err, 0); } }
// one property in any form, the others in their first unit or absent
template<class P, class F> static void properties(const std::vector<Prop<P>>& props, F parse, P(*)(const str&)) { fork_eq(false); int k = choose("property", (int)props.size()), fk = form(*props[k].units); bool others = choose("others"), wrapped = choose("wrapped"); str rec; std::vector<double> v, e;
    for (int i = 0; i < (int)props.size(); ++i) { v.push_back(number("v" + std::to_string(i))); e.push_back(number("e" + std::to_string(i), 0, 1e3)); if (i == k) rec += field(props[i].name, text(v[i]), text(e[i]), *props[i].units, fk); else if (others) rec += field(props[i].name, text(v[i]), text(e[i]), *props[i].units, 0); }
    rec = "{" + rec + "\"symbol\": \"X\"}"; if (wrapped) rec = "{\"properties\": " + rec + "}"; P p = parse(rec); for (int i = 0; i < (int)props.size(); ++i) quantity_is(props[i].name, p.*(props[i].member), i == k ? fk : others ? 0 : NoField, v[i], e[i], i == k ? factor(*props[i].units, fk) : double(1)); cover("end"); }
typedef ThermoPropertiesReaction TPR;
CONTRACT(bounded_substance_properties, "parseSubstance, thermoRefPropSubst, readValueErrorUnit") { properties<TPS>({{"sm_heat_capacity_p", &TPS::heat_capacity_cp, &JmolK}, {"sm_gibbs_energy", &TPS::gibbs_energy, &Jmol}, {"sm_enthalpy", &TPS::enthalpy, &Jmol}, {"sm_entropy_abs", &TPS::entropy, &JmolK}, {"sm_volume", &TPS::volume, &Jbar}}, [](const str& r) { return parseSubstance(r).thermoReferenceProperties(); }, nullptr); }
CONTRACT(bounded_reaction_properties, "parseReaction, thermoRefPropReac, readValueErrorUnit") { properties<TPR>({{"logKr", &TPR::log_equilibrium_constant, &one}, {"drsm_heat_capacity_p", &TPR::reaction_heat_capacity_cp, &JmolK}, {"drsm_gibbs_energy", &TPR::reaction_gibbs_energy, &Jmol}, {"drsm_enthalpy", &TPR::reaction_enthalpy, &Jmol}, {"drsm_entropy", &TPR::reaction_entropy, &JmolK}, {"drsm_volume", &TPR::reaction_volume, &Jbar}}, [](const str& r) { return parseReaction(r).thermoReferenceProperties(); }, nullptr); }
CONTRACT(bounded_other_dimension, "parseSubstance on a value in a unit of another dimension") { fork_eq(false); const char* names[] = {"sm_gibbs_energy", "sm_volume", "sm_entropy_abs", "mass_per_mole"}; const char* bad[] = {"J/(mol*K)", "kg", "J/mol", "J/mol"}; int k = choose("property", 4); double v = number("v"); bool thrown = false; try { parseSubstance(str("{") + field(names[k], text(v), "", {{bad[k], 1}}, 0) + "\"symbol\": \"X\"}"); } catch (std::exception&) { thrown = true; } chk("is rejected", thrown); cover("end"); }
// plain fields: an arbitrary subset given by leaving out one, or all but one
struct Fields { str rec = "{"; int k, n, mode; Fields(int n) : k(choose("field", n)), n(n), mode(choose("mode", 4)) {} bool on(int i) { return mode == 0 || (mode == 1 ? i != k : mode == 2 ? i == k : i != k); } void put(int i, const str& name, const str& value) { if (on(i)) rec += quoted(name) + ": " + value + ", "; else if (mode == 3) rec += quoted(name) + ": null, "; } str end() { return rec + "\"other\": 1}"; } };
CONTRACT(bounded_substance_fields, "parseSubstance, read_value_unit") { fork_eq(false); Fields f(14); double m = number("m"), lt = number("lt"), ut = number("ut"), lp = number("lp"), up = number("up"), Tr = number("Tr"), Pr = number("Pr"); int mf = f.k == 5 ? choose("mass in", 3) : 1, state = f.k == 6 ? choose("state", 16) : 4, cls = f.k == 7 ? choose("class", 7) : 3, q = f.k == 3 ? choose("charge", 5) - 2 : -1; if (state >= 7) state++;
    f.put(0, "name", "\"a name\""); f.put(1, "symbol", "\"X\""); f.put(2, "formula", "\"NaX\""); f.put(3, "formula_charge", std::to_string(q)); f.put(4, "reaction", "\"R1\""); if (f.on(5)) f.rec += field("mass_per_mole", text(m), "", gmol, mf); if (f.on(6)) f.rec += "\"aggregate_state\": {\"" + std::to_string(state) + "\": \"s\"}, "; if (f.on(7)) f.rec += "\"class_\": {\"" + std::to_string(cls) + "\": \"c\"}, ";
    str limits; int l = 0; for (auto [n, v] : std::vector<std::pair<const char*, double>>{{"lowerT", lt}, {"upperT", ut}, {"lowerP", lp}, {"upperP", up}}) { if (f.on(8 + l)) limits += (limits.empty() ? "" : ", ") + quoted(n) + ": " + text(v); ++l; } f.rec += "\"limitsTP\": {" + limits + "}, "; f.put(12, "Tst", text(Tr)); f.put(13, "Pst", text(Pr));
    Substance s = parseSubstance(f.end()); chk("name", s.name() == (f.on(0) ? "a name" : "")); chk("symbol", s.symbol() == (f.on(1) ? "X" : "")); chk("formula", s.formula() == (f.on(2) ? "NaX" : "")); chk("charge", s.charge() == (f.on(3) ? q : 0)); chk("reaction", s.reactionSymbol() == (f.on(4) ? "R1" : "")); eq("molar mass", s.molarMass(), f.on(5) ? m * gmol[mf].factor : double(0)); chk("aggregate state", s.aggregateState() == (f.on(6) ? state : 0)); chk("class", s.substanceClass() == (f.on(7) ? cls : 0));
    eq("lower T", s.lowerT(), f.on(8) ? lt : double(0)); eq("upper T", s.upperT(), f.on(9) ? ut : double(0)); eq("lower P", s.lowerP(), f.on(10) ? lp : double(0)); eq("upper P", s.upperP(), f.on(11) ? up : double(0)); eq("reference T", s.referenceT(), f.on(12) ? Tr : double(298.15)); eq("reference P", s.referenceP(), f.on(13) ? Pr : double(1e5));
    chk("calculated from its reaction exactly if it names one and no method", (s.thermoCalculationType() == SubstanceThermoCalculationType::REACDC) == f.on(4)); cover("end"); }
CONTRACT(bounded_reaction_fields, "parseReaction") { fork_eq(false); Fields f(9); double lt = number("lt"), ut = number("ut"), lp = number("lp"), up = number("up"), Tr = number("Tr"), Pr = number("Pr"); f.put(0, "name", "\"a name\""); f.put(1, "symbol", "\"R1\""); f.put(2, "equation", "\"A + 2B = C\""); str limits; int l = 0; for (auto [n, v] : std::vector<std::pair<const char*, double>>{{"lowerT", lt}, {"upperT", ut}, {"lowerP", lp}, {"upperP", up}}) { if (f.on(3 + l)) limits += (limits.empty() ? "" : ", ") + quoted(n) + ": " + text(v); ++l; } f.rec += "\"limitsTP\": {" + limits + "}, "; f.put(7, "Tst", text(Tr)); f.put(8, "Pst", text(Pr));
    Reaction r = parseReaction(f.end()); chk("name", r.name() == (f.on(0) ? "a name" : "")); chk("symbol", r.symbol() == (f.on(1) ? "R1" : f.on(2) ? "A + 2B = C" : "")); chk("equation", r.equation() == (f.on(2) ? "A + 2B = C" : "")); eq("lower T", r.lowerT(), f.on(3) ? lt : double(0)); eq("upper T", r.upperT(), f.on(4) ? ut : double(0)); eq("lower P", r.lowerP(), f.on(5) ? lp : double(0)); eq("upper P", r.upperP(), f.on(6) ? up : double(0)); eq("reference T", r.referenceT(), f.on(7) ? Tr : double(298.15)); eq("reference P", r.referenceP(), f.on(8) ? Pr : double(1e5)); cover("end"); }
CONTRACT(bounded_element_fields, "parseElement, read_value_unit") { fork_eq(false); Fields f(9); double S = number("S"), Cp = number("Cp"), m = number("m"), V = number("V"); int u = choose("unit", 3), number_ = choose("number", 3) * 41, iso = choose("isotope", 2) * 13, cls = choose("class", 4); f.put(0, "name", "\"a name\""); f.put(1, "symbol", "\"X\""); f.put(2, "number", std::to_string(number_)); if (f.on(3)) f.rec += field("entropy", text(S), "", JmolK, u ? u + 2 : u); if (f.on(4)) f.rec += field("heat_capacity", text(Cp), "", JmolK, u ? u + 2 : u); if (f.on(5)) f.rec += field("atomic_mass", text(m), "", gmol, u); if (f.on(6)) f.rec += field("volume", text(V), "", Jbar, u); if (f.on(7)) f.rec += "\"class_\": {\"" + std::to_string(cls) + "\": \"c\"}, "; f.put(8, "isotope_mass", std::to_string(iso));
    Element e = parseElement(f.end()); double fe = JmolK[u ? u + 2 : u].factor; chk("name", e.name() == (f.on(0) ? "a name" : "")); chk("symbol", e.symbol() == (f.on(1) ? "X" : "")); chk("number", e.number() == (f.on(2) ? number_ : 0)); eq("entropy", e.entropy(), f.on(3) ? S * fe : double(0)); eq("heat capacity", e.heatCapacity(), f.on(4) ? Cp * fe : double(0)); eq("molar mass", e.molarMass(), f.on(5) ? m * gmol[u].factor : double(0)); eq("volume", e.volume(), f.on(6) ? V * Jbar[u].factor : double(0)); chk("class", e.class_() == (f.on(7) ? cls : 0)); chk("isotope mass", e.isotopeMass() == (f.on(8) ? iso : 0)); cover("end"); }
CONTRACT(bounded_scalar_forms, "read_value_unit") { fork_eq(false); int k = choose("of", 3), fm = form(gmol); double v = number("v"), w = number("w"); if (k == 0) { Substance s = parseSubstance("{" + field("mass_per_mole", text(v), "", gmol, fm) + "\"symbol\": \"X\"}"); eq("molar mass", s.molarMass(), given(fm) ? v * factor(gmol, fm) : double(0)); } else { bool first = k == 1; Element e = parseElement("{" + (first ? field("entropy", text(w), "", JmolK, 0) : str()) + field("atomic_mass", text(v), "", gmol, fm) + "\"symbol\": \"X\"}"); eq("molar mass", e.molarMass(), given(fm) ? v * factor(gmol, fm) : double(0)); eq("entropy", e.entropy(), first ? w : double(0)); eq("volume", e.volume(), 0); eq("heat capacity", e.heatCapacity(), 0); } cover("end"); }
// ---- methods: the name (and number) of a method in a record, the kind of calculation it selects, and its code
struct M { int key; const char* name; int kind, code; };
static const std::vector<M> SM = {{0, "cp_ft_equation", 0, MethodGenEoS_Thrift::CTPM_CPT}, {1, "cp_ft_equation_saxena86", 1, MethodCorrT_Thrift::CTM_FEI}, {2, "solute_hkf88_gems", 0, MethodGenEoS_Thrift::CTPM_HKF}, {3, "solute_hkf88_reaktoro", 0, MethodGenEoS_Thrift::CTPM_HKFR}, {4, "solute_aknifiev_diamond03", 2, MethodCorrP_Thrift::CPM_AKI}, {5, "landau_holland_powell98", 1, MethodCorrT_Thrift::CTM_CHP}, {6, "landau_berman88", 1, MethodCorrT_Thrift::CTM_BER}, {8, "fug_critical_param", 2, MethodCorrP_Thrift::CPM_GAS}, {9, "fluid_prsv", 2, MethodCorrP_Thrift::CPM_PRSV}, {10, "fluid_churakov_gottschalk", 2, MethodCorrP_Thrift::CPM_EMP}, {11, "fluid_soave_redlich_kwong", 2, MethodCorrP_Thrift::CPM_SRK}, {12, "fluid_sterner_pitzer", 2, MethodCorrP_Thrift::CPM_STP}, {13, "fluid_peng_robinson78", 2, MethodCorrP_Thrift::CPM_PR78}, {14, "fluid_comp_redlich_kwong_hp91", 2, MethodCorrP_Thrift::CPM_CORK},
    {25, "water_diel_jnort91_reaktoro", 0, MethodGenEoS_Thrift::CTPM_WJNR}, {26, "water_diel_jnort91_gems", 0, MethodGenEoS_Thrift::CTPM_WJNG}, {27, "water_diel_sverj14", 0, MethodGenEoS_Thrift::CTPM_WSV14}, {28, "water_diel_fern97", 0, MethodGenEoS_Thrift::CTPM_WF97}, {29, "water_eos_hgk84_lvs83_gems", 1, MethodCorrT_Thrift::CTM_WAT}, {30, "water_eos_iapws95_gems", 1, MethodCorrT_Thrift::CTM_WAS}, {31, "water_eos_hgk84_reaktoro", 1, MethodCorrT_Thrift::CTM_WAR}, {32, "water_eos_iapws95_reaktoro", 1, MethodCorrT_Thrift::CTM_WWP}, {33, "water_pvt_zhang_duan05", 1, MethodCorrT_Thrift::CTM_WZD}, {34, "mv_constant", 2, MethodCorrP_Thrift::CPM_CON}, {35, "mv_equation_dorogokupets88", 2, MethodCorrP_Thrift::CPM_VKE}, {36, "mv_equation_berman88", 2, MethodCorrP_Thrift::CPM_VBE}, {37, "mv_eos_birch_murnaghan_gott97", 2, MethodCorrP_Thrift::CPM_VBM}, {38, "mv_eos_murnaghan_hp98", 2, MethodCorrP_Thrift::CPM_CEH}, {39, "mv_eos_tait_hp11", 2, MethodCorrP_Thrift::CPM_VTA}, {40, "mv_pvnrt", 2, MethodCorrP_Thrift::CPM_OFF}, {41, "solute_holland_powell98", 0, MethodGenEoS_Thrift::CTPM_HP98}, {42, "solute_anderson91", 0, MethodGenEoS_Thrift::CTPM_AN91}, {43, "standard_entropy_cp_integration", 1, MethodCorrT_Thrift::CTM_CST}};
static const std::vector<M> RM = {{0, "logk_fpt_function", 0, MethodGenEoS_Thrift::CTPM_REA}, {3, "logk_nordstrom_munoz88", 1, MethodCorrT_Thrift::CTM_LGK}, {4, "logk_1_term_extrap0", 1, MethodCorrT_Thrift::CTM_EK0}, {5, "logk_1_term_extrap1", 1, MethodCorrT_Thrift::CTM_EK1}, {6, "logk_2_term_extrap", 1, MethodCorrT_Thrift::CTM_EK2}, {7, "logk_3_term_extrap", 1, MethodCorrT_Thrift::CTM_EK3}, {8, "logk_lagrange_interp", 1, MethodCorrT_Thrift::CTM_IKZ}, {9, "logk_marshall_frank78", 1, MethodCorrT_Thrift::CTM_DKR}, {10, "solute_eos_ryzhenko_gems", 1, MethodCorrT_Thrift::CTM_MRB}, {11, "dr_heat_capacity_ft", 0, MethodGenEoS_Thrift::CTPM_CPT}, {12, "dr_volume_fpt", 2, MethodCorrP_Thrift::CPM_VKE}, {13, "dr_volume_constant", 2, MethodCorrP_Thrift::CPM_CON}, {14, "logk_dolejs_manning10", 1, MethodCorrT_Thrift::CTM_DMD}};
static str method(const M& m, const str& extra = "") { return "{\"method\": {\"" + std::to_string(m.key) + "\": \"" + m.name + "\"}" + (extra.empty() ? "" : ", " + extra) + "}"; }
template<class S, class F> static void methods(const std::vector<M>& all, const std::map<const unsigned, const str>& documented, F parse) { fork_eq(false); for (auto& [k, n] : documented) { bool known = false; for (auto& m : all) known = known || (m.key == (int)k && n == m.name); chk("every documented method has a calculation method", known, n); } int i = choose("method", (int)all.size()); const M& m = all[i]; std::vector<str> l{method(m)}; int want[3] = {0, 0, 0}; want[m.kind] = m.code; if (choose("with others")) for (int d = 1; d < 3; ++d) { int kind = (m.kind + d) % 3; std::vector<const M*> c; for (auto& x : all) if (x.kind == kind) c.push_back(&x); const M* o = c[choose("other", 2) ? c.size() - 1 : 0]; want[kind] = o->code; if (choose("before")) l.insert(l.begin(), method(*o)); else l.push_back(method(*o)); }
    S s = parse("{\"symbol\": \"X\", \"reaction\": \"R\", \"TPMethods\": " + array(l) + "}"); chk("general method", (int)s.methodGenEOS() == want[0], m.name); chk("temperature method", (int)s.method_T() == want[1], m.name); chk("pressure method", (int)s.method_P() == want[2], m.name); cover("end"); }
CONTRACT(bounded_substance_methods, "getTPMethods, setTPMethods_old (Substance)") { methods<Substance>(SM, enum_method_substance, [](const str& r) { Substance s = parseSubstance(r); chk("a substance with methods is not calculated from a reaction", s.thermoCalculationType() == SubstanceThermoCalculationType::DCOMP); return s; }); }
CONTRACT(bounded_reaction_methods, "getTPMethods, setTPMethods_old (Reaction)") { methods<Reaction>(RM, enum_method_reaction, [](const str& r) { return parseReaction(r); }); }
// ---- parameters of methods
struct Par { const char* field; int method; std::function<vec(const ThermoParametersSubstance&)> get; std::vector<std::vector<Unit>> units; };
static vec first(const vvd& v) { return v.empty() ? vec() : v[0]; }
static Unit u(const char* n, double f = 1, double s = 0) { return {n, f, s}; }
static double cal() { return 4.184; }
typedef ThermoParametersSubstance PS; typedef ThermoParametersReaction PR;
static std::vector<Par> SP() { double c = cal(), k = 1000; return {
    {"eos_akinfiev_diamond_coeffs", 4, [](const PS& p) { return p.Cp_nonElectrolyte_coeff; }, {{u("1"), u("(cm^3)/g"), u("(cm^3*K^0.5)/g")}, {u("1"), u("m3/kg", k), u("(m3*K^0.5)/kg", k)}}},
    {"eos_gas_crit_props", 9, [](const PS& p) { return p.critical_parameters; }, {{u("K"), u("bar"), u(""), u("")}, {u("degC", 1, 273.15), u("MPa", 10), u("1"), u("1")}}},
    {"eos_hkf_coeffs", 2, [](const PS& p) { return p.HKF_parameters; }, {{u("cal/(mol*bar)"), u("cal/mol"), u("(cal*K)/(mol*bar)"), u("(cal*K)/mol"), u("cal/(mol*K)"), u("(cal*K)/mol"), u("cal/mol")}, {u("J/(mol*bar)", 1 / c), u("kcal/mol", k), u("(J*K)/(mol*bar)", 1 / c), u("(J*K)/mol", 1 / c), u("J/(mol*K)", 1 / c), u("(J*K)/mol", 1 / c), u("J/mol", 1 / c)}}},
    {"m_heat_capacity_ft_coeffs", 0, [](const PS& p) { return first(p.Cp_coeff); }, {{u("J/(mol*K)"), u("J/(mol*K^2)"), u("(J*K)/mol"), u("J/(mol*K^0.5)"), u("J/(mol*K^3)"), u("J/(mol*K^4)"), u("J/(mol*K^5)"), u("(J*K^2)/mol"), u("J/mol"), u("J/(mol*K^1.5)"), u("J/(mol*K)")}, {u("cal/(mol*K)", c), u("cal/(mol*K^2)", c), u("(cal*K)/mol", c), u("cal/(mol*K^0.5)", c), u("kJ/(mol*K^3)", k), u("cal/(mol*K^4)", c), u("cal/(mol*K^5)", c), u("(cal*K^2)/mol", c), u("kJ/mol", k), u("cal/(mol*K^1.5)", c), u("cal/(mol*K)", c)}}},
    {"m_phase_trans_props", 0, [](const PS& p) { return first(p.phase_transition_prop); }, {{u("K"), u("J/(mol*K)"), u("J/mol"), u("J/bar"), u("K/bar")}, {u("degC", 1, 273.15), u("cal/(mol*K)", c), u("kJ/mol", k), u("cm3", 0.1), u("K/kbar", 0.001)}}},
    {"m_landau_phase_trans_props", 5, [](const PS& p) { return p.m_landau_phase_trans_props; }, {{u("degC"), u("J/(mol*K)"), u("J/bar")}, {u("K", 1, -273.15), u("cal/(mol*K)", c), u("cm3", 0.1)}}},
    {"solute_holland_powell98_coeffs", 41, [](const PS& p) { return p.solute_holland_powell98_coeff; }, {{u("J/(mol*K^2)")}, {u("kJ/(mol*K^2)", k)}}},
    {"m_volume_fpt_coeffs", 36, [](const PS& p) { return p.volume_coeff; }, {{u("1/K"), u("1/K^2"), u("1/K^3"), u("1/bar"), u("1/bar^2")}, {u("1/K"), u("1/K^2"), u("1/K^3"), u("1/kbar", 0.001), u("1/bar^2")}}},
    {"eos_birch_murnaghan_coeffs", 37, [](const PS& p) { return p.volume_BirchM_coeff; }, {{u("1/K"), u("1/K^2"), u("K"), u("1"), u("1"), u("MPa"), u("MPa/K"), u("1"), u("1/MPa")}, {u("1/K"), u("1/K^2"), u("K"), u("1"), u("1"), u("kbar", 100), u("bar/K", 0.1), u("1"), u("1/GPa", 0.001)}}},
    {"eos_churakov_gottschalk_coeffs", 10, [](const PS& p) { return p.empirical_coeff; }, {{u("1"), u("1"), u("1")}}},
    {"m_berman_phase_trans_props", 6, [](const PS& p) { return first(p.phase_transition_prop_Berman); }, {{u("1"), u("1"), u("1")}}}}; }
struct RPar { const char* field; int method; vec PR::*get; std::vector<std::vector<Unit>> units; };
static std::vector<RPar> RP() { double c = cal(), k = 1000; return {
    {"logk_ft_coeffs", 0, &PR::reaction_logK_fT_coeff, {{u("1"), u("1/K"), u("K"), u("1"), u("K^2"), u("1/K^2"), u("K^0.5")}}}, {"dr_heat_capacity_ft_coeffs", 11, &PR::reaction_Cp_fT_coeff, {{u("J/(mol*K)"), u("J/(mol*K^2)"), u("(J*K)/mol"), u("J/(mol*K^0.5)"), u("J/(mol*K^3)")}, {u("cal/(mol*K)", c), u("cal/(mol*K^2)", c), u("(kJ*K)/mol", k), u("cal/(mol*K^0.5)", c), u("cal/(mol*K^3)", c)}}}, {"dr_volume_fpt_coeffs", 12, &PR::reaction_V_fT_coeff, {{u("1/K"), u("1/K^2"), u("1/K^3"), u("1/bar"), u("1/bar^2")}, {u("1/K"), u("1/K^2"), u("1/K^3"), u("1/MPa", 0.1), u("1/bar^2")}}},
    {"dr_ryzhenko_coeffs", 10, &PR::reaction_RB_coeff, {{u("1"), u("1"), u("1")}}}, {"dr_marshall_franck_coeffs", 9, &PR::reaction_FM_coeff, {{u("1"), u("K"), u("K^2"), u("K^3"), u("1"), u("K"), u("K^2")}}}, {"dr_dolejs_manning10_coeffs", 14, &PR::reaction_DM10_coeff, {{u("J/mol"), u("J/(mol*K)"), u("J/(mol*K)"), u("J/(mol*K^2)"), u("J/(mol*K)")}, {u("cal/mol", c), u("cal/(mol*K)", c), u("kJ/(mol*K)", k), u("cal/(mol*K^2)", c), u("cal/(mol*K)", c)}}}, {"logk_pt_values", 8, &PR::logK_TP_array, {{u("1"), u("1"), u("1")}}}}; }
struct Coeffs { str json; vec want; };
static Coeffs coeffs(const str& field, const std::vector<std::vector<Unit>>& units, const str& n) { Coeffs r; int form = choose("units", (int)units.size() + 1) - 1, N = units[0].size(), count = choose("count", 3); count = count == 0 ? 0 : count == 1 ? N : N + 1; std::vector<str> v, us; for (int i = 0; i < count; ++i) { double x = number(n + std::to_string(i)); v.push_back(text(x)); Unit y = form >= 0 && i < N ? units[form][i] : u(""); r.want.push_back(x * y.factor + y.shift); } if (form >= 0) for (auto& y : units[form]) us.push_back(quoted(y.name)); r.json = quoted(field) + ": {\"values\": " + array(v) + (form >= 0 ? ", \"units\": " + array(us) : "") + "}"; return r; }
static void vec_is(const str& n, const vec& got, const vec& want) { chk("as many coefficients as given", got.size() == want.size(), n); if (got.size() == want.size()) for (size_t i = 0; i < want.size(); ++i) eq("coefficient", got[i], want[i]); }
CONTRACT(bounded_substance_parameters, "getTPMethods, thermoParamSubst, read_values_units, convert_values_units") { fork_eq(false); auto all = SP(); int k = choose("field", (int)all.size()); Coeffs c = coeffs(all[k].field, all[k].units, "c"); const M* m = nullptr; for (auto& x : SM) if (x.key == all[k].method) m = &x; Substance s = parseSubstance("{\"symbol\": \"X\", \"TPMethods\": [" + method(*m, c.json) + "]}"); auto p = s.thermoParameters(); for (int i = 0; i < (int)all.size(); ++i) vec_is(all[i].field, all[i].get(p), i == k ? c.want : vec()); eq("no expansivity", p.isobaric_expansivity, 0); eq("no compressibility", p.isothermal_compresibility, 0); cover("end"); }
CONTRACT(bounded_reaction_parameters, "getTPMethods, thermoParamReac, read_values_units, convert_values_units") { fork_eq(false); auto all = RP(); int k = choose("field", (int)all.size()); Coeffs c = coeffs(all[k].field, all[k].units, "c"); const M* m = nullptr; for (auto& x : RM) if (x.key == all[k].method) m = &x; Reaction r = parseReaction("{\"symbol\": \"R\", \"TPMethods\": [" + method(*m, c.json) + "]}"); auto p = r.thermoParameters(); for (int i = 0; i < (int)all.size(); ++i) vec_is(all[i].field, p.*(all[i].get), i == k ? c.want : vec()); cover("end"); }
CONTRACT(bounded_intervals, "thermoParamSubst: several temperature intervals") { fork_eq(false); int n = 1 + choose("n", 3); std::vector<str> l; std::vector<vec> lim, cp, ph; if (choose("pressure first")) l.push_back(method(SM[23])); for (int i = 0; i < n; ++i) { str k = std::to_string(i); double lo = number("lo" + k), up = number("up" + k), a = number("a" + k), b = number("b" + k), t = number("t" + k); str e; bool hasl = i > 0 || choose("limits"), hasp = i > 0 && choose("transition" + k); if (hasl) e += "\"limitsTP\": {\"lowerT\": " + text(lo) + ", \"upperT\": " + text(up) + "}, "; e += "\"m_heat_capacity_ft_coeffs\": {\"values\": [" + text(a) + ", " + text(b) + "]}"; if (hasp) e += ", \"m_phase_trans_props\": {\"values\": [" + text(t) + ", 1.5]}"; l.push_back(method(SM[0], e)); lim.push_back(hasl ? vec{lo, up} : vec{}); cp.push_back({a, b}); if (hasp) ph.push_back({t, 1.5}); } if (choose("pressure last")) l.push_back(method(SM[23]));
    auto p = parseSubstance("{\"symbol\": \"X\", \"TPMethods\": " + array(l) + "}").thermoParameters(); chk("one interval per equation", p.temperature_intervals.size() == lim.size()); chk("one set of coefficients per equation", p.Cp_coeff.size() == cp.size()); chk("the transitions given", p.phase_transition_prop.size() == ph.size()); if (p.temperature_intervals.size() == lim.size() && p.Cp_coeff.size() == cp.size()) for (int i = 0; i < n; ++i) { vec_is("limits", p.temperature_intervals[i], lim[i]); vec_is("Cp", p.Cp_coeff[i], cp[i]); } if (p.phase_transition_prop.size() == ph.size()) for (size_t i = 0; i < ph.size(); ++i) vec_is("transition", p.phase_transition_prop[i], ph[i]); cover("end"); }
CONTRACT(bounded_legacy_units, "read_values_units, read_value_unit: the units older databases carry") { fork_eq(false); int k = choose("of", 3); if (k == 0) { std::vector<str> v; vec want; for (int i = 0; i < 8; ++i) { double x = number("c" + std::to_string(i)); v.push_back(text(x)); want.push_back(x); } auto p = parseSubstance("{\"TPMethods\": [" + method(SM[2], "\"eos_hkf_coeffs\": {\"values\": " + array(v) + ", \"units\": [\"cal/(mol*bar)\", \"cal/mol\", \"(cal*K)/mol\", \"cal/(mol*K)\", \"(cal*K)/mol\", \"cal/mol\"]}") + "]}").thermoParameters(); vec_is("hkf", p.HKF_parameters, want); }
    else { double a = number("a", 1e-6, 1e-3), b = number("b", 1, 1e4); int ua = choose("unit of a", 3), ub = choose("unit of b", 4); std::vector<Unit> A = {{"1/K", 1e5}, {"kbar", 1e5}, {"", 1e5}}, B = {{"kbar", 1}, {"1e-05/K", 1}, {"", 1}, {"GPa", 10}}; auto f = [&](const str& n, double x, const Unit& y) { return quoted(n) + ": {\"values\": [" + text(x) + "]" + (y.name.empty() ? "" : ", \"units\": [" + quoted(y.name) + "]") + "}, "; }; auto p = parseSubstance("{" + (k != 2 ? f("m_expansivity", a, A[ua]) : "") + f("m_compressibility", b, B[ub]) + "\"TPMethods\": [" + method(SM[27]) + "]}").thermoParameters(); eq("expansivity in 1e-5/K", p.isobaric_expansivity, k != 2 ? a * A[ua].factor : double(0)); eq("bulk modulus in kbar", p.isothermal_compresibility, b * B[ub].factor); } cover("end"); }
CONTRACT(bounded_conventions, "readConventions") { int k = choose("form", 3); auto c = readConventions(k == 0 ? "{\"water_triple_point_reference\": \"NEA_HGK\"}" : k == 1 ? "{\"water_triple_point_reference\": null}" : "{}"); chk("the convention named, or the documented default", c.water_triple_point_reference == (k == 0 ? "NEA_HGK" : "HKF_HGK_1974")); cover("end"); }

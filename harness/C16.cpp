// C16: the engine applies exactly the models the record of a substance or a reaction names, in order, each to the
// results of the one before, at the temperature and pressure of the query.
#include "engine.hpp"
static std::string at(const Call& c) { return c.model + "|" + c.subst + "|" + c.extra; }
struct Order { std::vector<Call> c; size_t n = 0; bool ok = true; };
// the next call of this model for this record (a repeated evaluation of the same thing changes nothing)
static const Call* called(const std::string& model, const std::string& sym, size_t from = 0) { auto& v = world()->calls; for (size_t i = from; i < v.size(); ++i) if (v[i].model == model && v[i].subst == sym + "|" + sym) return &v[i]; return nullptr; }
static void only(std::vector<std::string> models, const std::string& sym) { for (auto& c : world()->calls) if (c.subst == sym + "|" + sym) { bool f = false; for (auto& m : models) f = f || m == c.model; chk("only the models named by the record are run", f, c.model); } }
static void inputs(const std::string& ob, const Call& c, size_t at, const std::vector<double>& v) { chk(ob + ": given", c.in.size() >= at + v.size()); if (c.in.size() >= at + v.size()) for (size_t i = 0; i < v.size(); ++i) eq(ob, c.in[at + i], v[i]); }
template<class X> static std::vector<double> fed(const X& x) { std::vector<double> v; feed(v, x); return v; }
static const Call* at_TP(const std::string& ob, const Call* c, double T, double P) { chk(ob + " is run", c); if (c) { eq(ob + ": T", c->T, T); eq(ob + ": P", c->P, P); } return c; }
// the solvent's state at T and P as its own model gives it
static const Call* solvent_call(const std::string& m, double T, double P, const std::string& state, bool electro = false) { for (auto& c : world()->calls) if (c.model == m && c.subst == "H2O@|H2O@" && c.extra == state && vf::same(c.T, T) && vf::same(c.P, P)) return &c; return nullptr; }
static void solvent_state(const std::string& ob, const Call& c, size_t off, double T, double P) { const Call* s = solvent_call("WAR", T, P, "0"); chk(ob + " comes from the solvent's model", s); if (s) inputs(ob, c, off, fed(world()->ps[s->result])); }
static void electro_state(const std::string& ob, const Call& c, size_t off, double T, double P) { const Call* s = solvent_call("WJNR", T, P, "0"); chk(ob + " comes from the solvent's model", s); if (s) inputs(ob, c, off, fed(world()->es[s->result])); }
static const char* gens[] = {"", "CON", "CPT", "HKF", "HKFR", "HP98", "AN91"}; static const int geni[] = {0, G_::CTPM_CON, G_::CTPM_CPT, G_::CTPM_HKF, G_::CTPM_HKFR, G_::CTPM_HP98, G_::CTPM_AN91};
static const char* ts[] = {"", "CHP", "CST"}; static const int ti[] = {0, T_::CTM_CHP, T_::CTM_CST};
static const char* ps[] = {"", "AKI", "CEH", "VBE", "VBM", "CORK", "PRSV", "EMP", "SRK", "PR78", "STP", "OFF", "CON"}; static const int pi_[] = {0, P_::CPM_AKI, P_::CPM_CEH, P_::CPM_VBE, P_::CPM_VBM, P_::CPM_CORK, P_::CPM_PRSV, P_::CPM_EMP, P_::CPM_SRK, P_::CPM_PR78, P_::CPM_STP, P_::CPM_OFF, P_::CPM_CON};
static Database elements(Database db) { for (auto& e : {"Ca", "C", "O", "H"}) { Element x; x.setSymbol(e); x.setName(e); x.setClass(0); x.setIsotopeMass(0); x.setEntropy(in(std::string("S") + e, 0, 300)); db.addElement(x); } return db; }
// what is left undefined by the models
static TPS filled(TPS t, const TPS& ref, bool fallback) { if (fallback) for (auto& f : fields()) if ((t.*f.second).sta.first == notdefined) t.*f.second = ref.*f.second; return t; }
static void answer(const std::string& ob, const TPS& a, const TPS& b) { same_tps(ob, a, b); for (auto& f : fields()) chk(ob + "." + f.first + " is defined exactly when it should be", ((a.*f.second).sta.first == notdefined) == ((b.*f.second).sta.first == notdefined)); }
static void substance(int g, bool conv) {
    start(); double T = in("T", 273, 2000), P0 = in("P", 1.5e5, 5e8), P = P0; int t = conv ? 0 : choose("T model", 3), p = conv ? 0 : choose("P model", 13); bool corr = choose("gas correction"), fall = choose("fall back"), bb = conv; double Tr = in("Trw", 280, 300), Pr = in("Prw", 1e4, 1.2e5); int undef = p || t ? 0 : choose("undefined", 10); world()->undefined = undef;
    Database db = elements(Database()); Substance x = record("X", geni[g], ti[t], pi_[p], p > 4 && p < 12 ? SubstanceClass::GASFLUID : SubstanceClass::COMPONENT); x.setFormula("CaC2O3"); double Trx = in("Trx", 280, 300); x.setReferenceT(Trx); TPS ref = x.thermoReferenceProperties(); db.addSubstance(x); Substance w = water(); w.setReferenceT(Tr); w.setReferenceP(Pr); db.addSubstance(w);
    ThermoEngine e(db); e.preferences().enable_memoize = choose("cache"); e.preferences().apply_pressure_correction_to_gas_props = corr; e.preferences().fallback_to_reference_properties = fall; if (bb) e.conventions().apparent_properties = "BERMAN_BROWN"; e.conventions().water_properties = choose("steam tables", 2) ? "STEAM_TABLES" : "GEOCHEMICAL";
    TPS r = e.thermoPropertiesSubstance(T, P, "X"); eq("P handed back", P, P0); TPS cur; bool con = g == 1 || (g == 0 && t == 0 && (p == 0 || p == 12)); std::vector<std::string> used; auto& W = *world();
    if (con) cur = ref;
    else {
        if (g) { used.push_back(gens[g]); const Call* c = at_TP("general model", called(gens[g], "X"), T, P0); if (c) { cur = W.tps[c->result]; if (g == 3 || g == 4) { solvent_state("solvent state of the general model", *c, 0, T, P0); electro_state("dielectric state of the general model", *c, 15, T, P0); } if (g >= 5) { solvent_state("reference solvent state of the general model", *c, 0, Tr, Pr); solvent_state("solvent state of the general model", *c, 15, T, P0); } } }
        if (t && !(t == 2 && g == 2)) { used.push_back(ts[t]); const Call* c = at_TP("temperature model", called(ts[t], "X"), T, P0); if (c) { if (t == 1) inputs("temperature model starts from the general model", *c, 0, fed(cur)); cur = W.tps[c->result]; } }
        if (p) { used.push_back(ps[p]); const Call* c = at_TP("pressure model", called(ps[p], "X"), T, P0); if (c) { inputs("pressure model starts from the temperature model", *c, 0, fed(cur)); if (p > 4 && p < 12) chk("gas correction as asked for", c->extra == (corr ? "corrected" : "uncorrected"));
            if (p == 1) { auto wt = [&](const char* ob, double T_, double P_, size_t off) { const Call *s = nullptr, *l = nullptr; for (auto& k : W.calls) { if (k.model == "WAR" && k.extra.size() > 1 && k.extra[0] == '0' && vf::same(k.T, T_) && vf::same(k.P, P_)) s = &k; if (k.model == "Woolley" && vf::same(k.T, T_) && vf::same(k.P, P_)) l = &k; } chk(std::string(ob) + ": solvent", s); chk(std::string(ob) + ": ideal gas", l); if (!s || !l) return; TPS wp = W.tps[s->result]; if (e.conventions().water_properties == "STEAM_TABLES") { auto tr = waterTripleData.at(db.conventions().water_triple_point_reference); ThermoScalar ts = (Reaktoro_::Temperature(T_) - 273.16) * tr.Str; wp.gibbs_energy -= tr.Gtr - ts; wp.enthalpy -= tr.Htr; wp.entropy -= tr.Str; wp.helmholtz_energy -= tr.Atr - ts; wp.internal_energy -= tr.Utr; } inputs(std::string(ob) + ": solvent", *c, off, fed(filled(wp, w.thermoReferenceProperties(), fall))); inputs(std::string(ob) + ": ideal gas", *c, off + 24, fed(W.tps[l->result])); solvent_state(std::string(ob) + ": state", *c, off + 48, T_, P_); }; wt("gas solubility model at the query", T, P0, 24); wt("gas solubility model at the reference", Tr, Pr, 24 + 63); }
            cur = W.tps[c->result]; } } }
    only(used, "X"); if (bb) { ThermoScalar d = cur.gibbs_energy; d -= Trx * (in("SCa", 0, 300) + in("SC", 0, 300) * 2 + in("SO", 0, 300) * 3); cur.gibbs_energy = d; }
    answer("result", r, filled(cur, ref, fall)); }
#define S(N, G) CONTRACT(N, "thermoPropertiesSubstance, getThermoPreferencesSubstance, fallbackThermoPropertiesSubstance") { substance(G, false); }
S(no_general_model, 0) S(constant_properties, 1) S(heat_capacity_integration, 2) S(hkf, 3) S(hkf_reaktoro, 4) S(holland_powell, 5) S(anderson, 6)
CONTRACT(berman_brown, "thermoPropertiesSubstance, toBermanBrown, elementalEntropyFormula") { substance(choose("general model", 7), true); }
// --- the solvent
static const char* ws[] = {"WAT", "WAR", "WWP", "WZD", "CPT", "CON"}; static const int wi[] = {T_::CTM_WAT, T_::CTM_WAR, T_::CTM_WWP, T_::CTM_WZD, 0, T_::CTM_WAR};
static const char* es[] = {"WJNR", "WJNG", "WSV14", "WF97", ""}; static const int ei[] = {G_::CTPM_WJNR, G_::CTPM_WJNG, G_::CTPM_WSV14, G_::CTPM_WF97, 0};
CONTRACT(solvent_substance, "thermoPropertiesSubstance, toSteamTables") {
    start(); double T = in("T", 273, 2000), P0 = choose("at saturation") ? double(0) : in("P", 1.5e5, 5e8), P = P0; int k = choose("model", 6); world()->undefined = choose("undefined", 10); bool fall = choose("fall back"), gas = choose("gas"), steam = choose("steam tables"), vapour = gas && choose("as vapour"); Database db; int gen = k == 5 ? (int)G_::CTPM_CON : k == 4 ? (int)G_::CTPM_CPT : (int)G_::CTPM_WJNR; if (vapour && k < 4) gen = G_::CTPM_HKF;
    assume(!vapour || k < 4); Substance w = record("H2O", gen, wi[k], vapour ? (int)P_::CPM_GAS : 0, vapour ? SubstanceClass::GASFLUID : SubstanceClass::AQSOLVENT); w.setAggregateState(gas ? AggregateState::GAS : AggregateState::AQUEOUS); db.addSubstance(w); std::vector<std::string> tr = {"HKF_HGK_1974", "NEA_HGK"}; int nt = choose("triple point", 2); db.conventions().water_triple_point_reference = tr[nt];
    ThermoEngine e(db); e.preferences().fallback_to_reference_properties = fall; if (steam) e.conventions().water_properties = "STEAM_TABLES"; TPS r = e.thermoPropertiesSubstance(T, P, "H2O"), cur; auto& W = *world();
    if (k == 5) cur = w.thermoReferenceProperties(); else { double Pq = P0; if (k < 3) saturation(T, Pq); const Call* c = at_TP("model", called(ws[k], "H2O"), T, Pq); if (c) { cur = W.tps[c->result]; if (k < 3) chk("state and triple point", c->extra == std::string(gas ? "1" : "0") + tr[nt], c->extra); if (k == 3) chk("state", c->extra == (gas ? "1" : "0")); } eq("P handed back", P, Pq); chk("no other model", W.calls.size() == 1); }
    if (steam && !vapour) { auto t = waterTripleData.at(tr[nt]); ThermoScalar ts = (Reaktoro_::Temperature(T) - 273.16) * t.Str; cur.gibbs_energy -= t.Gtr - ts; cur.enthalpy -= t.Htr; cur.entropy -= t.Str; cur.helmholtz_energy -= t.Atr - ts; cur.internal_energy -= t.Utr; } answer("result", r, filled(cur, w.thermoReferenceProperties(), fall)); }
CONTRACT(solvent_properties, "propertiesSolvent, electroPropertiesSolvent") {
    start(); double T = in("T", 273, 2000), P0 = choose("at saturation") ? double(0) : in("P", 1.5e5, 5e8), P = P0; int k = choose("model", 4), l = choose("dielectric model", 4), state = choose("state", 4) - 1; bool gas = choose("gas"), el = choose("dielectric properties"), before = choose("asked before"); int st = state == 0 || state == 1 ? state : gas; Database db; Substance w = record("H2O", ei[l], wi[k], 0, SubstanceClass::AQSOLVENT); w.setAggregateState(gas ? AggregateState::GAS : AggregateState::AQUEOUS); db.addSubstance(w); ThermoEngine e(db);
    e.preferences().enable_memoize = choose("cache"); if (before) { double Q = P0; e.propertiesSolvent(T, Q, "H2O", 1 - st); world()->calls.clear(); } auto& W = *world(); double Pq = P0; if (k < 3) saturation(T, Pq); std::string s = std::to_string(st);
    if (!el) { PropertiesSolvent r = e.propertiesSolvent(T, P, "H2O", state); const Call* c = at_TP("model", called(ws[k], "H2O"), T, Pq); chk("one evaluation", W.calls.size() == 1); if (c) { chk("in the state asked for", c->extra == s); auto& m = W.ps[c->result]; same_field("density", r.density, m.density); same_field("alpha", r.Alpha, m.Alpha); same_field("beta", r.Beta, m.Beta); same_field("densityT", r.densityT, m.densityT); same_field("densityP", r.densityP, m.densityP); } }
    else { ElectroPropertiesSolvent r = e.electroPropertiesSolvent(T, P, "H2O", state); const Call* c = at_TP("dielectric model", called(es[l], "H2O"), T, Pq); if (c) { chk("in the state asked for", c->extra == s); auto& m = W.es[c->result]; same_field("epsilon", r.epsilon, m.epsilon); same_field("Z", r.bornZ, m.bornZ); same_field("Y", r.bornY, m.bornY); if (l == 0) { const Call* d = at_TP("solvent model", called(ws[k], "H2O"), T, Pq); if (d) { chk("solvent in the state asked for", d->extra == s); inputs("density the dielectric model starts from", *c, 0, fed(W.ps[d->result])); } } } }
    eq("P handed back", P, Pq); }
CONTRACT(not_a_solvent, "propertiesSolvent, electroPropertiesSolvent") { start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8); Database db; db.addSubstance(record("X", G_::CTPM_WJNR, T_::CTM_WAR, 0)); ThermoEngine e(db); PropertiesSolvent p = e.propertiesSolvent(T, P, "X", choose("state", 3) - 1); e.electroPropertiesSolvent(T, P, "X", 0); chk("a substance that is not a solvent has no solvent properties", world()->calls.empty()); bool thrown = false; try { e.thermoPropertiesSubstance(T, P, "nowhere"); } catch (std::exception&) { thrown = true; } chk("an unknown substance is an error", thrown); }
CONTRACT(hydrogen, "thermoPropertiesSubstance") { start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8), P0 = P; Database db; Substance h = record("H+", geni[choose("general model", 7)], ti[choose("T model", 3)], pi_[choose("P model", 13)], SubstanceClass::AQSOLUTE); if (choose("dependent")) { h.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); h.setReactionSymbol("R"); } db.addSubstance(h); db.addSubstance(water()); ThermoEngine e(db); e.preferences().fallback_to_reference_properties = choose("fall back"); if (choose("berman brown")) e.conventions().apparent_properties = "BERMAN_BROWN"; e.preferences().enable_memoize = choose("cache"); TPS r = e.thermoPropertiesSubstance(T, P, "H+"); for (auto& f : fields()) { eq(f.first + " is zero", (r.*f.second).val, 0); eq(f.first + ".ddt is zero", (r.*f.second).ddt, 0); eq(f.first + ".ddp is zero", (r.*f.second).ddp, 0); chk(f.first + " is defined", (r.*f.second).sta.first != notdefined); } eq("P", P, P0); chk("no model is run", world()->calls.empty()); }
// the preferred solvent, or the one the database has
CONTRACT(which_solvent, "getThermoPreferencesSubstance, setSolventSymbol") { start(); double T = in("T", 273, 2000), P = in("P", 1e5, 5e8); Database db; db.addSubstance(record("X", choose("model") ? (int)G_::CTPM_HKF : (int)G_::CTPM_HP98, 0, 0, SubstanceClass::AQSOLUTE)); Substance a = water(); a.setSymbol("A@"); a.setName("A@"); db.addSubstance(a); bool two = choose("two"); if (two) { Substance b = water(); b.setSymbol("B@"); b.setName("B@"); db.addSubstance(b); } ThermoEngine e(db); if (two) e.setSolventSymbol("B@"); e.thermoPropertiesSubstance(T, P, "X"); int n = 0; for (auto& c : world()->calls) if (c.model == "WAR") { ++n; chk("the solvent asked for, or the only one", c.subst == (two ? "B@|B@" : "A@|A@"), c.subst); } chk("a solvent is used", n > 0); }
// --- reactions
static const int rt[] = {T_::CTM_LGK, T_::CTM_LGX, T_::CTM_EK0, T_::CTM_EK1, T_::CTM_EK2, T_::CTM_EK3, T_::CTM_DMD, T_::CTM_DKR, T_::CTM_MRB};
static void answer(const std::string& ob, const TPR& a, const TPR& b) { for (auto& f : rfields()) same_field(ob + "." + f.first, a.*f.second, b.*f.second); same_field(ob + ".lnK", a.ln_equilibrium_constant, b.ln_equilibrium_constant); same_field(ob + ".log10K", a.log_equilibrium_constant, b.log_equilibrium_constant); }
static Reaction reac(int g, int t, int p) { Reaction r; r.setSymbol("R"); r.setName("R"); r.setReactants({{"A", -1}, {"B", 2}}); r.setReferenceT(298.15); r.setReferenceP(in("Prr", 1e4, 1.2e5)); if (g) r.setMethodGenEoS((G_::type)g); if (t) r.setMethod_T((T_::type)t); if (p) r.setMethod_P((P_::type)p); TPR ref; TPS a = incoming("rr"); ref.reaction_gibbs_energy = a.gibbs_energy; ref.reaction_enthalpy = a.enthalpy; ref.reaction_entropy = a.entropy; ref.reaction_volume = a.volume; ref.reaction_heat_capacity_cp = a.heat_capacity_cp; ref.log_equilibrium_constant = quantity("rrlgK", -100, 100, calculated, false); r.setThermoReferenceProperties(ref); return r; }
static const Call* model_of(int t, double T, double P0) { bool dens = t >= 6; const char* m[] = {"DMD", "DKR", "MRB"}; const Call* c = at_TP("temperature model", called(dens ? m[t - 6] : "LGK", "R"), T, P0); if (c && !dens) chk("the temperature function named", c->extra == std::to_string(rt[t])); if (c && dens) solvent_state("solvent state of the density model", *c, 0, T, P0); return c; }
CONTRACT(reaction_models, "thermoPropertiesReaction, getThermoPreferencesReaction") {
    start(); double T = in("T", 273, 2000), P0 = in("P", 1.5e5, 5e8), P = P0; int g = choose("general model", 3), t = choose("T model", 9); int gi[] = {0, G_::CTPM_CON, G_::CTPM_REA}; Database db; Reaction rc = reac(gi[g], rt[t], 0); db.addReaction(rc); db.addSubstance(water()); ThermoEngine e(db); e.preferences().enable_memoize = choose("cache"); TPR r = e.thermoPropertiesReaction(T, P, "R"); auto& W = *world(); eq("P handed back", P, P0);
    if (g == 1) { answer("reference properties", r, rc.thermoReferenceProperties()); chk("no model is run", W.calls.empty()); } else { const Call* c = model_of(g == 2 ? 0 : t, T, P0); if (c) answer("result", r, W.tpr[c->result]); only({g == 2 || t < 6 ? "LGK" : t == 6 ? "DMD" : t == 7 ? "DKR" : "MRB"}, "R"); } }
// constant volume: G, H and -RT lnK move by V (P - Pref)
CONTRACT(reaction_constant_volume, "thermoPropertiesReaction") {
    start(); double T = in("T", 273, 2000), P0 = in("P", 1.5e5, 5e8), P = P0; int t = choose("T model", 8); Database db; Reaction rc = reac(0, rt[t], choose("kind") ? (int)P_::CPM_CON : (int)P_::CPM_NUL); db.addReaction(rc); db.addSubstance(water()); ThermoEngine e(db); TPR r = e.thermoPropertiesReaction(T, P, "R"); const Call* c = model_of(t, T, P0); if (!c) return; TPR m = world()->tpr[c->result]; const double& V = m.reaction_volume.val; double dP = (P0 - in("Prr", 1e4, 1.2e5)) / 1e5; double VP = V * dP, VPt = m.reaction_volume.ddt * dP, VPp = m.reaction_volume.ddp * dP + V / 1e5; const double R = 8.31451; double ln10 = 2.302585093;
    auto q = [&](const char* ob, const ThermoScalar& a, const ThermoScalar& b, double v, double vt, double vp, nat tol = 1e-8) { eqc(ob, a.val - b.val, v, tol); eqc(std::string(ob) + ".ddt", a.ddt - b.ddt, vt, tol); eqc(std::string(ob) + ".ddp", a.ddp - b.ddp, vp, tol); };
    q("G", r.reaction_gibbs_energy, m.reaction_gibbs_energy, VP, VPt, VPp); q("H", r.reaction_enthalpy, m.reaction_enthalpy, VP, VPt, VPp); q("lnK", r.ln_equilibrium_constant, m.ln_equilibrium_constant, -VP / R / T, -VPt / R / T + VP / R / T / T, -VPp / R / T); q("log10K", r.log_equilibrium_constant, m.log_equilibrium_constant, -VP / R / T / ln10, (-VPt / R / T + VP / R / T / T) / ln10, -VPp / R / T / ln10); same_field("V", r.reaction_volume, m.reaction_volume); same_field("Cp", r.reaction_heat_capacity_cp, m.reaction_heat_capacity_cp);
    eq("S=(H-G)/T", r.reaction_entropy.val * T, r.reaction_enthalpy.val - r.reaction_gibbs_energy.val); eq("U=H-PV", r.reaction_internal_energy.val, r.reaction_enthalpy.val - P0 / 1e5 * r.reaction_volume.val); eq("A=U-TS", r.reaction_helmholtz_energy.val, r.reaction_internal_energy.val - T * r.reaction_entropy.val); }
// a volume function of T and P starts from the temperature model
CONTRACT(reaction_volume_function, "thermoPropertiesReaction") { start(); double T = in("T", 273, 2000), P = in("P", 1.5e5, 5e8); Database db; db.addReaction(reac(0, T_::CTM_LGK, choose("kind") ? (int)P_::CPM_VKE : (int)P_::CPM_VBE)); ThermoEngine e(db); TPR r = e.thermoPropertiesReaction(T, P, "R"); const Call *c = called("LGK", "R"), *d = called("VFT", "R"); chk("the temperature model is run", c); chk("the volume function is run", d); chk("the volume function starts from the result of the temperature model", d && d->in.size()); }

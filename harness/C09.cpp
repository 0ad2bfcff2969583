// C09: the state of water follows from the Helmholtz energy it was given, by the thermodynamic identities.
#include "subst.hpp"
#include <functional>
#include "ThermoFun/ThermoModelsSolvent.h"
#include "Substances/Solvent/WaterHGKreaktoro.h"
#include "Substances/Solvent/WaterWP95reaktoro.h"
#include "Substances/Solvent/Reaktoro/WaterUtils.hpp"
#include "Substances/Solvent/Reaktoro/WaterThermoState.hpp"
#include "Substances/Solvent/Reaktoro/WaterThermoStateUtils.hpp"
#include "Substances/Solvent/Reaktoro/WaterHelmholtzState.hpp"
typedef WaterHelmholtzState W; typedef WaterThermoState S; typedef Reaktoro_::Temperature TT; typedef Reaktoro_::Pressure PP; struct Stop {};
static std::function<W(TT, ThermoScalar)> hgk, wp;
namespace ThermoFun { auto waterHelmholtzStateHGK(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> WaterHelmholtzState { return hgk(T, D); }
auto waterHelmholtzStateWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> WaterHelmholtzState { return wp(T, D); } }
static ThermoScalar qn(double v, double t, double p) { return ThermoScalar(v, t, p, 0., {calculated, ""}); }

// --- an arbitrary Helmholtz energy F(T,D), the pressure D^2 F_D, and the density moving with T and P as that demands
struct World { double T, D, P, rT, rP, F, FT, FD, FTT, FTD, FDD, FTTT, FTTD, FTDD, FDDD; W h; ThermoScalar rho; PP p = PP(1.); };
static double tT(const World& w, double x) { return D(x, "T") + D(x, "D") * w.rT; }
static double tP(const World& w, double x) { return D(x, "D") * w.rP; }
static World world() { World w; w.T = in("T", 273, 1300); w.D = in("D", 0.5, 1300); typedef std::initializer_list<std::pair<std::string, std::string>> L; auto o = [](const char* n, nat lo, nat hi, const char* t, const char* d) { return opaque(n, lo, hi, L{{"T", t}, {"D", d}}); };
    for (auto n : {"tttt", "tttd", "ttdd", "tddd", "dddd"}) in(n, -1, 1);
    w.FTTT = o("ttt", -1, 1, "tttt", "tttd"); w.FTTD = o("ttd", -1, 1, "tttd", "ttdd"); w.FTDD = o("tdd", -1, 1, "ttdd", "tddd"); w.FDDD = o("ddd", -1, 1, "tddd", "dddd");
    w.FTT = o("tt", -20, -5, "ttt", "ttd"); w.FTD = o("td", 0.1, 2, "ttd", "tdd"); w.FDD = o("dd", 0.1, 2, "tdd", "ddd"); w.FT = o("t", -5000, 5000, "tt", "td"); w.FD = o("d", 1, 1000, "td", "dd"); w.F = o("F", -1e6, 1e6, "t", "d");
    w.P = w.D * w.D * w.FD; double PT = D(w.P, "T"), PD = D(w.P, "D"); w.rT = -PT / PD; w.rP = 1 / PD; w.rho = qn(w.D, w.rT, w.rP); w.p = PP(w.P); w.p.val = w.P;
    auto c = [&](double x) { return qn(x, tT(w, x), tP(w, x)); }; W& h = w.h; h.helmholtz = c(w.F); h.helmholtzT = c(w.FT); h.helmholtzD = c(w.FD); h.helmholtzTT = c(w.FTT); h.helmholtzTD = c(w.FTD); h.helmholtzDD = c(w.FDD); h.helmholtzTTT = c(w.FTTT); h.helmholtzTTD = c(w.FTTD); h.helmholtzTDD = c(w.FTDD); h.helmholtzDDD = c(w.FDDD); return w; }
static void carried(const World& w, const std::string& n, const ThermoScalar& x) { eq(n + ".ddt", x.ddt, tT(w, x.val)); eq(n + ".ddp", x.ddp, tP(w, x.val)); }

CONTRACT(state_derivatives, "waterThermoState: pressure and density derivatives") { World w = world(); S s = waterThermoState(TT(w.T), w.p, w.rho, w.h); auto T = [](double x) { return D(x, "T"); }; auto R = [](double x) { return D(x, "D"); };
    eq("pressure", s.pressure.val, w.P); eq("P_D", s.pressureD.val, R(w.P)); eq("P_T", s.pressureT.val, T(w.P)); eq("P_DD", s.pressureDD.val, R(R(w.P))); eq("P_TD", s.pressureTD.val, T(R(w.P))); eq("P_TT", s.pressureTT.val, T(T(w.P)));
    eq("density", s.density.val, w.D); eq("density_T at constant P", s.densityT.val, w.rT); eq("density_P", s.densityP.val, w.rP); eq("density_TT", s.densityTT.val, tT(w, w.rT)); eq("density_TP", s.densityTP.val, tP(w, w.rT)); eq("density_PT", s.densityTP.val, tT(w, w.rP)); eq("density_PP", s.densityPP.val, tP(w, w.rP)); eq("temperature", s.temperature.val, w.T); cover("end"); }
CONTRACT(state_energies, "waterThermoState: energies, entropy and heat capacities") { World w = world(); S s = waterThermoState(TT(w.T), w.p, w.rho, w.h); double sv = s.entropy.val;
    eq("v = 1/density", s.volume.val, 1 / w.D); eq("a", s.helmholtz.val, w.F); eq("s = -da/dT", sv, -w.FT); eq("u = a + Ts", s.internal_energy.val, w.F - w.T * w.FT); eq("h = u + Pv", s.enthalpy.val, s.internal_energy.val + w.P / w.D); eq("g = h - Ts", s.gibbs.val, s.enthalpy.val - w.T * sv);
    eq("cv = (du/dT) at constant density", s.cv.val, D(s.internal_energy.val, "T")); eq("cv = T ds/dT", s.cv.val, w.T * D(sv, "T")); eq("cp = T ds/dT at constant P", s.cp.val, w.T * tT(w, sv)); eq("cp = dh/dT at constant P", s.cp.val, tT(w, s.enthalpy.val)); eq("dg/dT = -s", tT(w, s.gibbs.val), -sv); eq("dg/dP = v", tP(w, s.gibbs.val), s.volume.val); cover("end"); }
CONTRACT(state_carried, "waterThermoState: derivatives carried with every quantity") { World w = world(); S s = waterThermoState(TT(w.T), w.p, w.rho, w.h);
    for (auto& [n, x] : std::vector<std::pair<std::string, ThermoScalar>>{{"volume", s.volume}, {"entropy", s.entropy}, {"a", s.helmholtz}, {"u", s.internal_energy}, {"h", s.enthalpy}, {"g", s.gibbs}, {"cv", s.cv}, {"cp", s.cp}, {"density", s.density}, {"density_T", s.densityT}, {"density_P", s.densityP}, {"P_T", s.pressureT}, {"P_D", s.pressureD}}) carried(w, n, x);
    eq("pressure.ddt", s.pressure.ddt, double(0)); eq("pressure.ddp", s.pressure.ddp, double(1)); cover("end"); }
CONTRACT(state_carried_second, "waterThermoState: derivatives carried with the second derivatives") { World w = world(); S s = waterThermoState(TT(w.T), w.p, w.rho, w.h);
    for (auto& [n, x] : std::vector<std::pair<std::string, ThermoScalar>>{{"density_TT", s.densityTT}, {"density_TP", s.densityTP}, {"density_PP", s.densityPP}, {"P_TT", s.pressureTT}, {"P_TD", s.pressureTD}, {"P_DD", s.pressureDD}}) carried(w, n, x); cover("end"); }

// --- the density: the callee says anything at all in the first iteration, so that the second starts from an arbitrary iterate
struct Loop { int n = 0, kind; double T, P, first, d1, dt1, dp1, a, b, c; };
static W anything(const std::string& n) { W h; h.helmholtzD = qn(in(n + "d", 1, 1000), in(n + "d_T", -1, 1), in(n + "d_P", -1e-3, 1e-3)); h.helmholtzDD = qn(in(n + "dd", 0.5, 2), in(n + "dd_T", -1, 1), in(n + "dd_P", -1e-3, 1e-3)); return h; }
static void newton(ThermoScalar (*f)(TT, PP, int), std::function<W(TT, ThermoScalar)>& model, std::function<W(TT, ThermoScalar)>& other) { fork_eq(false); Loop L; L.T = in("T", 660, 1200); assume(L.T > 647.096); L.P = in("P", 1e5, 1e9); L.kind = choose("kind", 5); PP pq(L.P); (void)pq;
    other = [](TT, ThermoScalar) -> W { chk("evaluates its own equation of state", false); throw Stop(); };
    model = [&](TT t, ThermoScalar d) { if (++L.n == 1) { W h; h.helmholtzD = qn(in("xd", 1, 1000), in("xd_T", -1, 1), in("xd_P", -1e-3, 1e-3)); ThermoScalar next = qn(in("next", 1, 1300), in("next_T", -1, 1), in("next_P", -1e-3, 1e-3)), f = d * d * h.helmholtzD - PP(L.P); h.helmholtzDD = (f / (d - next) - 2. * d * h.helmholtzD) / (d * d); return h; } if (L.n > 2) throw Stop();
        eq("evaluated at the temperature asked for", t.val, L.T); eq("which varies with itself only", t.ddt, double(1)); L.d1 = d.val; L.dt1 = d.ddt; L.dp1 = d.ddp; assume(d.val > 0);
        nat off[] = {0, 2e-8, -2e-8, 0.9e-8, -0.9e-8}; L.a = (L.P + double(off[L.kind]) * double(22.064e6)) / (d.val * d.val); L.b = in("b", 0.1, 2); L.c = in("c", 0.5, 2); double e = in("e", -1, 1), g = in("g", -1, 1);
        W h; h.helmholtzD = qn(L.a, L.b + L.c * d.ddt, L.c * d.ddp); h.helmholtzDD = qn(L.c, e + g * d.ddt, g * d.ddp); return h; };
    ThermoScalar r; bool ended = false; try { r = f(TT(L.T), PP(L.P), -1); ended = true; } catch (Stop&) {}
    if (L.n < 2) { cover("first"); return; }    // accepted in the first iteration: covered by the second, which starts anywhere
    bool within = L.kind == 0 || L.kind > 2; chk("a density is returned exactly when it solves D^2 dA/dD = P within 1e-8 of the critical pressure", ended == within);
    if (!ended) return;
    double fx = L.d1 * L.d1 * L.a - L.P, df = 2 * L.d1 * L.a + L.d1 * L.d1 * L.c;
    if (L.kind == 0) { eq("the solution is returned", r.val, L.d1); eq("with its temperature derivative", r.ddt, -L.d1 * L.d1 * L.b / df); eq("and its pressure derivative", r.ddp, 1 / df); cover("solved"); }
    else if (L.d1 > fx / df) eq("a Newton step from it is returned", r.val, L.d1 - fx / df); }
CONTRACT(density_hgk, "waterDensityHGK: the iteration, from any iterate") { newton(waterDensityHGK, hgk, wp); }
CONTRACT(density_wp, "waterDensityWagnerPruss: the iteration, from any iterate") { newton(waterDensityWagnerPruss, wp, hgk); }
static void phase(ThermoScalar (*f)(TT, PP, int), std::function<W(TT, ThermoScalar)>& model, const char* tag) { fork_eq(false); double T = in("T", 280, 1200), P = in("P", 1e3, 1e9); int state = choose("state", 4) - 1; double first; model = [&](TT, ThermoScalar d) -> W { first = d.val; throw Stop(); };
    try { f(TT(T), PP(P), state); chk("the equation of state is evaluated", false); } catch (Stop&) {}
    bool sub = T <= 647.096; int ph = 2; if (sub) { ph = state; if (state < 0) ph = P < waterSaturatedPressureWagnerPruss(TT(T)).val ? 1 : 0; }
    if (ph == 0) eq("starts from the saturated liquid", first, waterSaturatedLiquidDensityWagnerPruss(TT(T)).val); if (ph == 1) eq("starts from the saturated vapour", first, waterSaturatedVapourDensityWagnerPruss(TT(T)).val); if (ph == 2) eq("starts near the critical density", first, double(322) * 0.99); cover("end"); }
CONTRACT(phase_hgk, "waterDensityHGK: choice of the phase") { phase(waterDensityHGK, hgk, "hgk"); }
CONTRACT(phase_wp, "waterDensityWagnerPruss: choice of the phase") { phase(waterDensityWagnerPruss, wp, "wp"); }
CONTRACT(density_gives_up, "waterDensityHGK, waterDensityWagnerPruss: no density without a solution") { TPvars(); int n = 0; bool which = choose("which"), raised = false; hgk = wp = [&](TT, ThermoScalar d) { ++n; W h; double f = double(1e8) + 2206400; h.helmholtzD = qn(f / (d.val * d.val), 0, 0); h.helmholtzDD = qn((double(2206400000.) - 2 * f / d.val) / (d.val * d.val), 0, 0); return h; };
    try { (which ? waterDensityHGK : waterDensityWagnerPruss)(TT(700.), PP(1e8), -1); } catch (std::exception&) { raised = true; } chk("an error, not a wrong density", raised); chk("after trying", n >= 20); cover("end"); }
CONTRACT(pressure, "waterPressureHGK, waterPressureWagnerPruss") { World w = world(); bool which = choose("which"); auto own = [&](TT, ThermoScalar) { return w.h; }; auto other = [](TT, ThermoScalar) -> W { chk("evaluates its own equation of state", false); throw Stop(); }; if (which) { hgk = own; wp = other; } else { wp = own; hgk = other; }
    try { ThermoScalar r = (which ? waterPressureHGK : waterPressureWagnerPruss)(TT(w.T), w.rho); eq("P = D^2 dA/dD", r.val, w.P); carried(w, "P", r); } catch (Stop&) {} cover("end"); }
// Wagner & Pruss (1993): auxiliary equations for saturation
static void sat(const std::string& n, ThermoScalar r, double x) { eq(n, r.val, x); eq(n + ": derivative", r.ddt, D(r.val, "T")); }
CONTRACT(saturation, "waterSaturatedPressureWagnerPruss, waterSaturatedLiquidDensityWagnerPruss, waterSaturatedVapourDensityWagnerPruss") { fork_eq(false); double T = in("T", 274, 646), t = 1 - T / double(647.096); in("P", 1, 2); auto pw = [&](nat a, nat b) { return std::pow(t, double(a) / double(b)); };
    sat("saturation pressure", waterSaturatedPressureWagnerPruss(TT(T)), 22.064e6 * std::exp(647.096 / T * (-7.85951783 * t + 1.84408259 * pw(3, 2) - 11.7866497 * pw(3, 1) + 22.6807411 * pw(7, 2) - 15.9618719 * pw(4, 1) + 1.80122502 * pw(15, 2))));
    sat("saturated liquid density", waterSaturatedLiquidDensityWagnerPruss(TT(T)), 322 * (1 + 1.99274064 * pw(1, 3) + 1.09965342 * pw(2, 3) - 0.510839303 * pw(5, 3) - 1.75493479 * pw(16, 3) - 45.5170352 * pw(43, 3) - 6.74694450e5 * pw(110, 3)));
    sat("saturated vapour density", waterSaturatedVapourDensityWagnerPruss(TT(T)), 322 * std::exp(-2.03150240 * pw(2, 6) - 2.68302940 * pw(4, 6) - 5.38626492 * pw(8, 6) - 17.2991605 * pw(18, 6) - 44.7586581 * pw(37, 6) - 63.9201063 * pw(71, 6))); cover("end"); }

// --- molar properties in the triple point convention
typedef TPS (*Molar)(TT, const S&, const WaterTripleProperties&);
static void molar(Molar f) { World w = world(); S s = waterThermoState(TT(w.T), w.p, w.rho, w.h); WaterTripleProperties t; double St = t.Str = in("Str", 50, 80), Gt = t.Gtr = in("Gtr", -3e5, -2e5), Ht = t.Htr = in("Htr", -3e5, -2e5), Ut = t.Utr = in("Utr", -3e5, -2e5), At = t.Atr = in("Atr", -3e5, -2e5); TPS r = f(TT(w.T), s, t); double M = 0.018015268, tr = 273.16;
    double G = r.gibbs_energy.val, H = r.enthalpy.val, E = r.entropy.val, V = r.volume.val, U = r.internal_energy.val, A = r.helmholtz_energy.val;
    eq("S", E, M * -w.FT + St); eq("H", H, M * s.enthalpy.val + Ht); eq("U", U, M * s.internal_energy.val + Ut); eq("V in J/bar", V, M / w.D * 1e5); eq("Cp", r.heat_capacity_cp.val, M * s.cp.val); eq("Cv", r.heat_capacity_cv.val, M * s.cv.val);
    eq("G: at the triple point temperature Gtr", G, M * s.gibbs.val - (w.T - tr) * St + Gt); eq("A: at the triple point temperature Atr", A, M * w.F - (w.T - tr) * St + At);
    eq("dG/dT = -S", tT(w, G), -E); eq("dG/dP = V", tP(w, G), V / 1e5); eq("Cp = T dS/dT", r.heat_capacity_cp.val, w.T * tT(w, E)); eq("Cp = dH/dT", r.heat_capacity_cp.val, tT(w, H)); eq("Cv = T dS/dT at constant volume", r.heat_capacity_cv.val, w.T * D(E, "T")); eq("dA/dV = -P", D(A, "D") / D(V, "D"), -w.P / 1e5); eq("dA/dT = -S at constant volume", D(A, "T"), -E);
    for (auto& [n, x] : fields()) carried(w, n, r.*x); cover("end"); }
CONTRACT(molar_hgk, "thermoPropertiesWaterHGKreaktoro") { molar(thermoPropertiesWaterHGKreaktoro); }
CONTRACT(molar_wp, "thermoPropertiesWaterWP95reaktoro") { molar(thermoPropertiesWaterWP95reaktoro); }
static void solventp(PropertiesSolvent (*f)(const S&)) { World w = world(); S s = waterThermoState(TT(w.T), w.p, w.rho, w.h); PropertiesSolvent r = f(s); double al = -tT(w, std::log(w.D)), be = tP(w, std::log(w.D));
    eq("Alpha = -dln(density)/dT", r.Alpha.val, al); eq("Beta = dln(density)/dP", r.Beta.val, be); eq("dAldT", r.dAldT.val, tT(w, al)); carried(w, "Alpha", r.Alpha); carried(w, "Beta", r.Beta); carried(w, "dAldT", r.dAldT);
    auto p = [&](const char* n, const ThermoScalar& a, const ThermoScalar& b) { same_field(n, a, b); }; p("density", r.density, s.density); p("density_T", r.densityT, s.densityT); p("density_P", r.densityP, s.densityP); p("density_TT", r.densityTT, s.densityTT); p("density_TP", r.densityTP, s.densityTP); p("density_PP", r.densityPP, s.densityPP); p("pressure", r.pressure, s.pressure); p("P_T", r.pressureT, s.pressureT); p("P_D", r.pressureD, s.pressureD); p("P_TT", r.pressureTT, s.pressureTT); p("P_TD", r.pressureTD, s.pressureTD); p("P_DD", r.pressureDD, s.pressureDD); cover("end"); }
CONTRACT(solvent_hgk, "propertiesWaterHGKreaktoro") { solventp(propertiesWaterHGKreaktoro); }
CONTRACT(solvent_wp, "propertiesWaterWP95reaktoro") { solventp(propertiesWaterWP95reaktoro); }

// --- the model classes: the state of the phase asked for at the query's temperature and pressure, or at saturation for P = 0
static const nat triple[3][5] = {{15.1320, -56290.0, -68767.0, -67887.0, -55415.0}, {15.1386, -56279.9, -68766.44, -67921.9, -55434.49}, {15.1374, -56279.9, -68766.76, -67922.22, -55434.49}};
template<class M> static void model(std::function<W(TT, ThermoScalar)>& own, std::function<W(TT, ThermoScalar)>& other, Molar mf, PropertiesSolvent (*sf)(const S&)) { fork_eq(false); bool satq = choose("at saturation"); double T = satq ? in("T", 280, 640) : in("Ts", 660, 1200), P0 = in("P", 1e4, 1e9); int state = satq ? choose("state", 3) - 1 : -1; double P = satq ? double(0) : P0, want = satq ? waterSaturatedPressureWagnerPruss(TT(T)).val : P0;
    other = [](TT, ThermoScalar) -> W { chk("evaluates its own equation of state", false); throw Stop(); }; double first; int n = 0; W ans; ThermoScalar used;
    own = [&](TT t, ThermoScalar d) { if (n++ == 0) first = d.val; eq("at the temperature asked for", t.val, T); eq("varying with itself only", t.ddt, double(1)); std::string k = n > 1 ? "y" : "x"; W h = anything(k); h.helmholtzD.val = want / (d.val * d.val); double z = in(k + "F", -1e6, 1e6), zt = in(k + "FT", -1e4, 1e4), a = in(k + "TT", -20, -5), b = in(k + "TD", 0.1, 2); h.helmholtz = qn(z, 0, 0); h.helmholtzT = qn(zt, 0, 0); h.helmholtzTT = qn(a, 0, 0); h.helmholtzTD = qn(b, 0, 0); h.helmholtzTTT = h.helmholtzTTD = h.helmholtzTDD = h.helmholtzDDD = qn(b, 0, 0); ans = h; used = d; return h; };
    Substance sub; M m(sub); bool liquid = state <= 0; bool props = choose("properties"); int tr = props ? 0 : choose("triple", 3); const char* name[] = {"HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS"}; double Pq = P;
    S s; auto expect = [&] { PP pw(want); s = waterThermoState(TT(T), pw, used, ans); };
    if (props) { PropertiesSolvent r = m.propertiesSolvent(T, Pq, state); expect(); PropertiesSolvent e = sf(s); same_field("density", r.density, e.density); same_field("Alpha", r.Alpha, e.Alpha); same_field("Beta", r.Beta, e.Beta); same_field("density_TT", r.densityTT, e.densityTT); same_field("pressure", r.pressure, e.pressure); }
    else { TPS r = m.thermoPropertiesSubstance(T, Pq, state, name[tr]); expect(); WaterTripleProperties t; double cal = 4.184; t.Str = triple[tr][0] * cal; t.Gtr = triple[tr][1] * cal; t.Htr = triple[tr][2] * cal; t.Utr = triple[tr][3] * cal; t.Atr = triple[tr][4] * cal; TPS e = mf(TT(T), s, t); for (auto& [n2, x] : fields()) same_field(n2, r.*x, e.*x); }
    if (satq) eq("starts from the phase asked for", first, (liquid ? waterSaturatedLiquidDensityWagnerPruss : waterSaturatedVapourDensityWagnerPruss)(TT(T)).val); eq("the pressure handed back", Pq, want); cover("end"); }
CONTRACT(class_hgk, "WaterHGKreaktoro::propertiesSolvent, thermoPropertiesSubstance; waterThermoStateHGK") { model<WaterHGKreaktoro>(hgk, wp, thermoPropertiesWaterHGKreaktoro, propertiesWaterHGKreaktoro); }
CONTRACT(class_wp, "WaterWP95reaktoro::propertiesSolvent, thermoPropertiesSubstance; waterThermoStateWagnerPruss") { model<WaterWP95reaktoro>(wp, hgk, thermoPropertiesWaterWP95reaktoro, propertiesWaterWP95reaktoro); }

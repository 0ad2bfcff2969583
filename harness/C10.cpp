// C10: the dielectric constant of water comes with its own derivatives, and the Born functions are those of -1/eps.
#include "hkf.hpp"
#include "ThermoFun/Database.h"
#include "ThermoFun/ThermoEngine.h"
#include "ThermoFun/ElectroModelsSolvent.h"
#include "ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.h"
#include "ThermoFun/Substances/Solvent/WaterElectroFernandez1997.h"
#define private public
#include "ThermoFun/Substances/Solvent/WaterHGK-JNgems.h"
#undef private
#include <functional>
typedef ElectroPropertiesSolvent E;
static std::function<PropertiesSolvent(double, double&, int)> engine; static std::function<ThermoScalar(ThermoScalar, ThermoScalar)> dielS, dielF;
namespace ThermoFun {
auto ThermoEngine::propertiesSolvent(double T, double& P, std::string s, int state) const -> PropertiesSolvent { chk("the solvent's own record is asked", s == "H2O@"); return engine(T, P, state); }
auto epsilonS(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar RHO) -> Reaktoro_::ThermoScalar { return dielS(T, RHO); }
auto epsilonF(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar RHO) -> Reaktoro_::ThermoScalar { return dielF(T, RHO); }
}
ThermoScalar real_S(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar RHO) asm("vf_real_epsilonS"); ThermoScalar real_F(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar RHO) asm("vf_real_epsilonF");

// --- Johnson and Norton (1991), for an arbitrary density and its derivatives
// eps = sum k_i(T/298.15) (rho/1000)^i with the published coefficients
static double published(double T, double rho) { double t = T / 298.15, r = rho / 1000; double k1 = 14.70333593 / t, k2 = 212.8462733 / t - 115.4445173 + 19.55210915 * t, k3 = -83.30347980 / t + 32.13240048 * t - 6.694098645 * t * t, k4 = -37.86202045 / (t * t) + 68.87359646 / t - 27.29401652; return 1 + k1 * r + k2 * r * r + k3 * r * r * r + k4 * r * r * r * r; }
static PropertiesSolvent moving() { PropertiesSolvent w; in("tttt", -1e-8, 1e-8); in("tttp", -1e-14, 1e-14); in("ttpp", -1e-20, 1e-20); in("tppp", -1e-26, 1e-26); in("pppp", -1e-32, 1e-32); typedef std::initializer_list<std::pair<std::string, std::string>> L; auto o = [](const char* n, nat lo, nat hi, const char* t, const char* p) { return opaque(n, lo, hi, L{{"T", t}, {"P", p}}); };
    double ttt = o("ttt", -1e-6, 1e-6, "tttt", "tttp"), ttp = o("ttp", -1e-12, 1e-12, "tttp", "ttpp"), tpp = o("tpp", -1e-17, 1e-17, "ttpp", "tppp"), ppp = o("ppp", -1e-24, 1e-24, "tppp", "pppp");
    double tt = o("tt", -1e-2, -1e-4, "ttt", "ttp"), tp = o("tp", -1e-9, -1e-11, "ttp", "tpp"), pp = o("pp", -1e-15, -1e-17, "tpp", "ppp"), t = o("t", -3, -0.01, "tt", "tp"), p = o("p", 1e-8, 1e-6, "tp", "pp"), r = o("rho", 300, 1100, "t", "p");
    w.density = quant(r, t, p); w.densityT = quant(t, tt, tp); w.densityP = quant(p, tp, pp); w.densityTT = quant(tt, ttt, ttp); w.densityTP = quant(tp, ttp, tpp); w.densityPP = quant(pp, tpp, ppp); return w; }
static double dT(double x) { return D(x, "T"); } static double dP(double x) { return D(x, "P"); }
static void exact(const std::string& n, const ThermoScalar& x) { eq(n + ".ddt", x.ddt, dT(x.val)); eq(n + ".ddp", x.ddp, dP(x.val)); }
static void all_of(const E& e) { double x = e.epsilon.val; eq("eps_T", e.epsilonT.val, dT(x)); eq("eps_P", e.epsilonP.val, dP(x)); eq("eps_TT", e.epsilonTT.val, dT(dT(x))); eq("eps_TP", e.epsilonTP.val, dT(dP(x))); eq("eps_PP", e.epsilonPP.val, dP(dP(x)));
    double z = e.bornZ.val; eq("Z = -1/eps", z, -1 / x); eq("Y = dZ/dT", e.bornY.val, dT(z)); eq("Q = dZ/dP", e.bornQ.val, dP(z)); eq("X = dY/dT", e.bornX.val, dT(e.bornY.val)); eq("N = dQ/dP", e.bornN.val, dP(e.bornQ.val)); eq("U = dQ/dT", e.bornU.val, dT(e.bornQ.val)); eq("U = dY/dP", e.bornU.val, dP(e.bornY.val)); }
static E jn(double T, const PropertiesSolvent& w, double P) { Substance s; s.setSymbol("H2O@"); return WaterJNreaktoro(s).electroPropertiesSolvent(T, P, w, choose("state", 2)); }
CONTRACT(jn_values, "WaterJNreaktoro, waterElectroStateJohnsonNorton, electroPropertiesWaterJNreaktoro") { double T = in("T", 273, 1300), P = in("P", 1e5, 1e9); PropertiesSolvent w = moving(); E e = jn(T, w, P); eq("eps is the published function of T and density", e.epsilon.val, published(T, w.density.val)); all_of(e); cover("end"); }
CONTRACT(jn_saturated, "WaterJNreaktoro at P = 0: the density decides") { double T = in("T", 273, 640); in("P", 1e5, 1e9); PropertiesSolvent w = moving(); Substance s; s.setSymbol("H2O@"); E e = WaterJNreaktoro(s).electroPropertiesSolvent(T, 0., w, 0); eq("eps", e.epsilon.val, published(T, w.density.val)); all_of(e); cover("end"); }
CONTRACT(jn_carried, "waterElectroStateJohnsonNorton: derivatives carried") { double T = in("T", 273, 1300), P = in("P", 1e5, 1e9); E e = jn(T, moving(), P); exact("eps", e.epsilon); exact("eps_T", e.epsilonT); exact("eps_P", e.epsilonP); exact("eps_TT", e.epsilonTT); exact("eps_TP", e.epsilonTP); exact("eps_PP", e.epsilonPP);
    exact("Z", e.bornZ); exact("Y", e.bornY); exact("Q", e.bornQ); exact("X", e.bornX); exact("N", e.bornN); exact("U", e.bornU); cover("end"); }

// --- the same in the SUPCRT92 implementation (density in g/cm3, pressure in bar)
static WaterHGKgems& gems() { static std::vector<WaterHGKgems*>* keep = new std::vector<WaterHGKgems*>; keep->push_back(new WaterHGKgems); return *keep->back(); }
struct Gems { double T, r, al, be, x, dedP, dedT, d2edT2, al_T; };
CONTRACT(gems_jn, "WaterHGKgems::JN91") { double T = in("T", 273, 1273); in("P", 1e5, 1e9); PropertiesSolvent w = moving(); double r = w.density.val / 1000, al = -dT(std::log(r)), be = dP(std::log(r)), da = dT(al), e = 0, eP = 0, eT = 0, eTT = 0; in("P", 1, 5000);
    gems().JN91(T, r, be, &al, &da, &e, &eP, &eT, &eTT); eq("eps is the published function", e, published(T, w.density.val)); eq("eps_P", eP, dP(e)); eq("eps_T", eT, dT(e)); eq("eps_TT", eTT, dT(dT(e))); cover("end"); }
CONTRACT(gems_born, "WaterHGKgems::epsBrn, WaterHGKgems::Born92") { double T = in("T", 274, 1270), P = in("Pb", 1, 4999); in("P", 1, 5000); PropertiesSolvent w = moving(); double r = w.density.val / 1000, al = -dT(std::log(r)), be = dP(std::log(r)), da = dT(al), e = 0, Z = 0, Q = 0, Y = 0, X = 0;
    gems().Born92(T, P, r, be, &al, &da, &e, &Z, &Q, &Y, &X, 4); eq("eps", e, published(T, w.density.val)); eq("Z = -1/eps", Z, -1 / e); eq("Q = dZ/dP", Q, dP(Z)); eq("Y = dZ/dT", Y, dT(Z)); eq("X = dY/dT", X, dT(Y)); cover("end"); }
CONTRACT(gems_returned, "WaterHGKgems::electroPropertiesWaterJNgems") { TPvars(); WaterHGKgems& g = gems(); bool sat = choose("saturated"); int state = choose("state", 2); double e = in("e", 1, 100), Y = in("Y", -1e-2, 1e-2), Q = in("Q", 1e-7, 1e-3), X = in("X", -1e-4, 1e-4);
    auto fill = [&](WPROPS& w, double k) { w.Dielw = k * e; w.ZBorn = -1 / (k * e); w.YBorn = k * Y; w.QBorn = k * Q; w.XBorn = k * X; }; fill(g.wl, 1); fill(g.wr, 3); g.aSpc.isat = sat; E r = g.electroPropertiesWaterJNgems(state);
    double k = (sat ? state == 1 : state == 0) ? 1 : 3; eq("eps of the phase asked for", r.epsilon.val, k * e); eq("Z", r.bornZ.val, -1 / (k * e)); eq("Y", r.bornY.val, k * Y); eq("Q is per Pa", r.bornQ.val, k * Q / 1e5); eq("X", r.bornX.val, k * X);
    double x = r.epsilon.val; eq("Y = eps_T/eps^2", r.bornY.val, r.epsilonT.val / (x * x)); eq("Q = eps_P/eps^2, both per Pa", r.bornQ.val, r.epsilonP.val / (x * x)); eq("X = dY/dT", r.bornX.val, r.epsilonTT.val / (x * x) - 2 * r.epsilonT.val * r.epsilonT.val / (x * x * x)); cover("end"); }

// --- models that differentiate numerically: on any dielectric function of second order the differences are the derivatives
static void numerical(bool fern) { double T = in("T", 300, 1300), P = in("P", 1e6, 6e9); bool sat = choose("saturated"); double psat = in("psat", 1e6, 2e7), Pq = sat ? psat : P; int state = choose("state", 2);
    double q[] = {in("q0", 10, 20), in("q1", 0.01, 0.1), in("q2", 1e-9, 1e-8), in("q3", 1e-5, 1e-4), in("q4", 1e-16, 1e-15), in("q5", 1e-13, 1e-12)}; auto f = [&](double t, double p) { return q[0] + q[1] * t + q[2] * p + q[3] * t * t + q[4] * p * p + q[5] * t * p; };
    // the density stands for the pressure it was computed at, so that the dielectric function knows T and P
    engine = [&](double t, double& p, int st) { chk("in the phase asked for", st == state); if (vf::equal(p, 0)) p = psat; PropertiesSolvent r; r.density = quant(p); r.densityT = quant(0); r.densityP = quant(0); return r; };
    int tK = 0; auto diel = [&](const ThermoScalar& t, const ThermoScalar& r) { double TK = fern ? t.val : t.val + 273.15, p = fern ? r.val : r.val * 1000; return quant(f(TK, p), 0, 0); }; dielS = dielF = diel;
    (fern ? dielS : dielF) = [](ThermoScalar, ThermoScalar) { chk("evaluates its own dielectric function", false); return quant(1); };
    Substance s; s.setSymbol("H2O@"); E e = fern ? WaterElectroFernandez1997(s).electroPropertiesSolvent(T, sat ? 0. : P, state) : WaterElectroSverjensky2014(s).electroPropertiesSolvent(T, sat ? 0. : P, state);
    double x = f(T, Pq), xT = q[1] + 2 * q[3] * T + q[5] * Pq, xP = q[2] + 2 * q[4] * Pq + q[5] * T;
    eq("eps at the temperature and pressure of the query", e.epsilon.val, x); eq("eps_T per K", e.epsilonT.val, xT); eq("eps_TT per K^2", e.epsilonTT.val, 2 * q[3]); eq("eps_P per Pa", e.epsilonP.val, xP); eq("eps_PP per Pa^2", e.epsilonPP.val, 2 * q[4]);
    eq("Z = -1/eps", e.bornZ.val, -1 / x); eq("Y = dZ/dT", e.bornY.val, xT / (x * x)); eq("Q = dZ/dP", e.bornQ.val, xP / (x * x)); eq("X = dY/dT", e.bornX.val, 2 * q[3] / (x * x) - 2 * xT * xT / (x * x * x)); cover("end"); }
CONTRACT(sverjensky_differences, "WaterElectroSverjensky2014, electroPropertiesWaterSverjensky2014") { numerical(false); }
CONTRACT(fernandez_differences, "WaterElectroFernandez1997, electroPropertiesWaterFernandez1997") { numerical(true); }
CONTRACT(fernandez_0C, "electroPropertiesWaterFernandez1997 at 0 degrees Celsius") { double P = in("P", 1e5, 1e9); engine = [&](double t, double& p, int) { PropertiesSolvent r; r.density = quant(p); return r; }; double a = in("a", 10, 20), b = in("b", 0.01, 0.1); dielF = [&](ThermoScalar t, ThermoScalar) { return quant(a + b * t.val); };
    Substance s; s.setSymbol("H2O@"); E e = WaterElectroFernandez1997(s).electroPropertiesSolvent(273.15, P, 0); eq("eps_T is defined", e.epsilonT.val, b); eq("eps_TT is defined", e.epsilonTT.val, double(0)); cover("end"); }
// the dielectric functions themselves, as published, with the derivatives they carry
static double rho_at(double& t, double& p) { t = in("rT", -3, -0.01); p = in("rP", 1e-8, 1e-6); return opaque("rho", 400, 1500, {{"T", "rT"}, {"P", "rP"}}); }
CONTRACT(sverjensky_function, "epsilonS: Sverjensky et al. (2014)") { double t, p, T = in("T", 30, 1200), dummy = in("P", 1, 2), r = rho_at(t, p); ThermoScalar e = real_S(TT(T), quant(r / 1000, t / 1000, p / 1000)); eq("eps", e.val, std::exp(-8.016651e-05 * T - 6.871618e-02 * std::sqrt(T) + 4.747973) * std::pow(r / 1000, -1.576377e-03 * T + 6.810288e-02 * std::sqrt(T) + 7.548755e-01)); exact("eps", e); cover("end"); }
CONTRACT(fernandez_function, "epsilonF: Fernandez et al. (1997)") { double t, p, T = in("T", 238, 1200), dummy = in("P", 1, 2), r = rho_at(t, p); ThermoScalar e = real_F(TT(T), quant(r, t, p)); double d = r / 322, u = 647.096 / T;
    double g = 1 + 0.978224486826 * d * std::pow(u, 0.25) - 0.957771379375 * d * u + 0.237511794148 * d * std::pow(u, 2.5) + 0.714692244396 * d * d * std::pow(u, 1.5) - 0.298217036956 * d * d * d * std::pow(u, 1.5) - 0.108863472196 * d * d * d * std::pow(u, 2.5) + 0.0949327488264 * d * d * d * d * u * u - 0.00980469816509 * std::pow(d, 5) * u * u + 0.165167634970e-4 * std::pow(d, 6) * std::pow(u, 5) + 0.937359795772e-4 * std::pow(d, 7) * std::sqrt(u) - 0.12317921872e-9 * std::pow(d, 10) * std::pow(u, 10) + 0.196096504426e-2 * d * std::pow(T / 228 - 1, -1.2);
    double n = 6.0221367e23 * r / 0.018015268, A = n * 6.138e-30 * 6.138e-30 * g / (T * 8.854187817e-12 * 1.380658e-23), B = n * 1.636e-40 / 3 / 8.854187817e-12; eq("eps", e.val, (1 + A + 5 * B + std::sqrt(9 + 2 * A + 18 * B + A * A + 10 * A * B + 9 * B * B)) / (4 - 4 * B)); exact("eps", e); cover("end"); }

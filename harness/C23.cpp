// C23: real-gas models. The fugacity coefficient, volume and residual properties belong to one root of the model's
// own equation of state. The equations of state are written here from the publications; the pressure is the one the
// equation gives at an arbitrary temperature and volume, and the root finder is replaced by its contract (the roots
// of the cubic), which is decided on its own further down.
#include "ts.hpp"
#include "ThermoFun/Substance.h"
#include "ThermoFun/ThermoParameters.h"
#include "ThermoFun/ThermoProperties.h"
#define private public
#define protected public
#include "ThermoFun/Substances/Gases/s_solmod_.h"
#undef private
#undef protected
using namespace solmod;
static double pick[3];
#define CARDANO(C) long int C::Cardano(double, double, double, double& z1, double& z2, double& z3) { z1 = pick[0]; z2 = pick[1]; z3 = pick[2]; return 0; }
CARDANO(TPRSVcalc) CARDANO(TSRKcalc) CARDANO(TPR78calc) CARDANO(TCORKcalc)
static const double R = 8.31451;
// the whole models, as the functions that turn them into properties of a gas see them: their own bodies, or any answer
struct Asked { int model; double T, P, low; char code; double c[12], F[6]; };
static Asked* asked = nullptr;
static char code(TPRSVcalc&) { return 0; } static char code(TSRKcalc&) { return 0; } static char code(TPR78calc&) { return 0; } static char code(TCGFcalc&) { return 0; } static char code(TCORKcalc& m) { return m.EosCode[0]; } static char code(TSTPcalc& m) { return m.EosCode[0]; }
template<class M> static long int answer(M& m, int k, double low, double* c, double* F) { asked->model = k; asked->T = m.Tk; asked->P = m.Pbar; asked->low = low; asked->code = code(m); for (int i = 0; i < (k == 2 ? 12 : 7); ++i) asked->c[i] = c[i]; for (int i = 0; i < 6; ++i) asked->F[i] = F[i] = in("F" + std::to_string(i), i == 0 ? 1e-3 : -1e4, 1e4); return 0; }
#define MODEL(C, N, K) long int real_##N(C*, double, double*, double*) asm("vf_real_" #C "_" #N); long int C::N(double low, double* c, double* F) { return asked ? answer(*this, K, low, c, F) : real_##N(this, low, c, F); }
MODEL(TCORKcalc, CORKCalcFugPure, 0) MODEL(TPRSVcalc, PRSVCalcFugPure, 1) MODEL(TCGFcalc, CGcalcFugPure, 2) MODEL(TSRKcalc, SRKCalcFugPure, 3) MODEL(TPR78calc, PR78CalcFugPure, 4) MODEL(TSTPcalc, STPCalcFugPure, 5)
struct Gas { double Tc, Pc, w, k1, k2, k3; };
static Gas gas() { return {in("Tc", 100, 800), in("Pc", 10, 300), in("w", -0.3, 0.9), in("k1", -0.2, 0.2), in("k2", -2, 2), in("k3", 0, 1)}; }
// published: a(T), b
struct AB { double a, b; };
static AB prsv(const Gas& g, double T) { double t = T / g.Tc, s = sqrt(t), k = 0.378893 + 1.4897153 * g.w - 0.17131848 * g.w * g.w + 0.0196554 * g.w * g.w * g.w; if (T < g.Tc) k = k + (g.k1 + g.k2 * (g.k3 - t) * (1 - s)) * (1 + s) * (0.7 - t); double q = 1 + k * (1 - s); return {0.457235 * R * R * g.Tc * g.Tc / g.Pc * q * q, 0.077796 * R * g.Tc / g.Pc}; }
static AB pr78(const Gas& g, double T) { double s = sqrt(T / g.Tc), k; if (g.w <= 0.491) k = 0.37464 + 1.54226 * g.w - 0.26992 * g.w * g.w; else k = 0.379642 + 1.48503 * g.w - 0.164423 * g.w * g.w + 0.0166666 * g.w * g.w * g.w; double q = 1 + k * (1 - s); return {0.457235529 * R * R * g.Tc * g.Tc / g.Pc * q * q, 0.0777960739 * R * g.Tc / g.Pc}; }
static AB srk(const Gas& g, double T) { double q = 1 + (0.48 + 1.574 * g.w - 0.176 * g.w * g.w) * (1 - sqrt(T / g.Tc)); return {0.42747 * R * R * g.Tc * g.Tc / g.Pc * q * q, 0.08664 * R * g.Tc / g.Pc}; }
static double P_pr(const AB& p, double T, double V) { return R * T / (V - p.b) - p.a / (V * V + 2 * p.b * V - p.b * p.b); }
static double P_srk(const AB& p, double T, double V) { return R * T / (V - p.b) - p.a / (V * (V + p.b)); }
// the logarithm of z - B is written as the code under contract writes it: z (1 - b/V), the same number (an obligation)
static double lnf_pr(const AB& p, double T, double V, double P, bool) { double z = P * V / (R * T), B = p.b * P / (R * T); return z - 1 - log(z - B) - p.a / (2 * sqrt(double(2)) * p.b * R * T) * log((z + (1 + sqrt(double(2))) * B) / (z + (1 - sqrt(double(2))) * B)); }
static double lnf_srk(const AB& p, double T, double V, double P, bool split) { double z = P * V / (R * T), B = p.b * P / (R * T); if (split) eq("z - B = z (1 - b/V)", z - B, z * (1 - p.b / V)); return z - 1 - log(split ? z * (1 - p.b / V) : z - B) - p.a / (p.b * R * T) * log(1 + B / z); }
// residual properties out of ln(phi): at constant pressure d/dT = d/dT|V - (P_T/P_V) d/dV
struct Path { double T, V, P; double dT(double f) const { return D(f, "T") - D(P, "T") / D(P, "x") * D(f, "x"); } double dP(double f) const { return D(f, "x") / D(P, "x"); } };
static void residual(const Path& s, double lnf, double phi, const double* F) { double G = R * s.T * lnf, S = -s.dT(G), H = G + s.T * S; eq("volume", F[4], s.V); eq("fugacity coefficient", F[0], exp(phi)); eq("d(RT ln phi)/dP = V - RT/P", s.dP(G), s.V - R * s.T / s.P); eq("G", F[1], G); eq("S", F[3], S); eq("H", F[2], H); eq("Cp", F[5], s.dT(H)); }
template<class M> static void whole(AB (*ab)(const Gas&, double), double (*pres)(const AB&, double, double), double (*lnf)(const AB&, double, double, double, bool), long int (M::*pure)(double, double*, double*)) { fork_eq(false); Gas g = gas(); double T = in("T", 200, 1500), x = in("x", 1.05, 400); AB p = ab(g, T); double V = p.b * x; double P = pres(p, T, V); assume(P >= 1e-5); assume(P < 1e5); assume(P * V / (R * T) > p.b * P / (R * T)); pick[0] = pick[1] = pick[2] = P * V / (R * T);
    M m(1, P, T); double c[7] = {g.Tc, g.Pc, g.w, g.k1, g.k2, g.k3, 0}, F[6]; int rc = (m.*pure)(100, c, F) == 0; chk("accepted", rc); residual({T, V, P}, lnf(p, T, V, P, true), lnf(p, T, V, P, false), F); cover("end"); }
CONTRACT(prsv, "TPRSVcalc::PRSVCalcFugPure, FugacityPT, AB, FugacityPure") { whole<TPRSVcalc>(prsv, P_pr, lnf_pr, &TPRSVcalc::PRSVCalcFugPure); }
CONTRACT(pr78, "TPR78calc::PR78CalcFugPure, FugacityPT, AB, FugacityPure") { whole<TPR78calc>(pr78, P_pr, lnf_pr, &TPR78calc::PR78CalcFugPure); }
CONTRACT(srk, "TSRKcalc::SRKCalcFugPure, FugacityPT, AB, FugacityPure") { whole<TSRKcalc>(srk, P_srk, lnf_srk, &TSRKcalc::SRKCalcFugPure); }
// of several roots, the one with the lowest fugacity; roots not above B are no volumes (a fugacity coefficient is below e^1000)
static double l_pr(double z, double A, double B) { return (-1.) * log(z - B) - A / (B * sqrt(double(8))) * log((z + (1. + sqrt(double(2))) * B) / (z + (1. - sqrt(double(2))) * B)) + z - 1.; }
static double l_srk(double z, double A, double B) { return z - 1 - log(z - B) - A / B * log(1. + B / z); }
template<class M> static void stable(AB (*ab)(const Gas&, double), double (*l)(double, double, double), long int (M::*pure)(double, double*, double*)) { fork_eq(false); Gas g{in("Tc", 100, 800), in("Pc", 10, 300), in("w", -0.3, 0.9), 0, 0, 0}; double T = in("T", 200, 1500), P = in("P", 1, 5000); AB p = ab(g, T); double A = p.a * P / (R * R * T * T), B = p.b * P / (R * T), z[3], lf[3]; bool ok[3]; for (int i = 0; i < 3; ++i) { pick[i] = z[i] = in("z" + std::to_string(i), 0.01, 5); ok[i] = z[i] > B; if (ok[i]) { lf[i] = l(z[i], A, B); assume(lf[i] < 1000); } } assume(ok[0] || ok[1] || ok[2]);
    M m(1, P, T); double c[7] = {g.Tc, g.Pc, g.w, g.k1, g.k2, g.k3, 0}, F[6]; (m.*pure)(100, c, F); int k = -1; for (int i = 0; i < 3; ++i) if (equal(F[4], z[i] * R * T / P)) k = i; chk("one of the roots", k >= 0); if (k < 0) return; chk("a root above B", ok[k]); if (!ok[k]) return; for (int i = 0; i < 3; ++i) if (ok[i] && i != k) le("the lowest fugacity", lf[k], lf[i]); cover("end"); }
CONTRACT(prsv_root, "TPRSVcalc::FugacityPure") { stable<TPRSVcalc>(prsv, l_pr, &TPRSVcalc::PRSVCalcFugPure); }
CONTRACT(pr78_root, "TPR78calc::FugacityPure") { stable<TPR78calc>(pr78, l_pr, &TPR78calc::PR78CalcFugPure); }
CONTRACT(srk_root, "TSRKcalc::FugacityPure") { stable<TSRKcalc>(srk, l_srk, &TSRKcalc::SRKCalcFugPure); }

// the root finders: in the branch with one real root the returned value solves z^3 + a2 z^2 + a1 z + a0 = 0, in the other
// the three do, the first is the smallest and the second the largest
#define REALC(C) long int real_##C(C*, double, double, double, double&, double&, double&) asm("vf_real_" #C "_Cardano");
REALC(TPRSVcalc) REALC(TSRKcalc) REALC(TPR78calc) REALC(TCORKcalc)
template<class M> using Cubic = long int (*)(M*, double, double, double, double&, double&, double&);
static double poly(double z, double a2, double a1, double a0) { return z * z * z + a2 * z * z + a1 * z + a0; }
template<class M> static void one_root(Cubic<M> f) { fork_eq(false); double a2 = in("a2", -20, 20), a1 = in("a1", -50, 50), a0 = in("a0", -50, 50), z1, z2, z3; double q = (pow(a2, 2.) - 3. * a1) / 9., r = (2. * pow(a2, 3.) - 9. * a2 * a1 + 27. * a0) / 54.; assume(pow(r, 2.) > pow(q, 3.)); f(nullptr, a2, a1, a0, z1, z2, z3); chk("one root", same(z1, z2) && same(z1, z3)); eq("it is a root", poly(z1, a2, a1, a0), 0); cover("end"); }
// every cubic with three real roots has (a2^2 - 3 a1)/9 = s^2 and (2 a2^3 - 9 a2 a1 + 27 a0)/54 = s^3 cos(3 acos C), 1/2 < C < 1
template<class M> static void three_roots(Cubic<M> f, nat lo, nat hi) { fork_eq(false); double a2 = in("a2", -20, 20), s = in("s", 0.01, 30), C = in("C", lo, hi), z1, z2, z3; double a1 = (a2 * a2 - 9 * s * s) / 3, y = 4 * C * C * C - 3 * C, a0 = (54 * s * s * s * y - 2 * a2 * a2 * a2 + 9 * a2 * a1) / 27; assume(pow(s * s * s * y, 2.) < pow(s * s, 3.)); f(nullptr, a2, a1, a0, z1, z2, z3);
    eq("first", poly(z1, a2, a1, a0), 0); eq("second", poly(z2, a2, a1, a0), 0); eq("third", poly(z3, a2, a1, a0), 0); le("in order", z1, z3); le("in order", z3, z2); eq("all of them", z1 + z2 + z3, -a2); cover("end"); }
CONTRACT(prsv_one_root, "TPRSVcalc::Cardano") { one_root<TPRSVcalc>(real_TPRSVcalc); }
CONTRACT(pr78_one_root, "TPR78calc::Cardano") { one_root<TPR78calc>(real_TPR78calc); }
CONTRACT(srk_one_root, "TSRKcalc::Cardano") { one_root<TSRKcalc>(real_TSRKcalc); }
CONTRACT(cork_one_root, "TCORKcalc::Cardano") { one_root<TCORKcalc>(real_TCORKcalc); }
CONTRACT(prsv_three_roots, "TPRSVcalc::Cardano") { three_roots<TPRSVcalc>(real_TPRSVcalc, 0.5, 1); }
CONTRACT(pr78_three_roots, "TPR78calc::Cardano") { three_roots<TPR78calc>(real_TPR78calc, 0.5, 1); }
CONTRACT(srk_three_roots, "TSRKcalc::Cardano") { three_roots<TSRKcalc>(real_TSRKcalc, 0.5, 1); }
CONTRACT(cork_three_roots, "TCORKcalc::Cardano") { three_roots<TCORKcalc>(real_TCORKcalc, 0.8660255, 1); }
CONTRACT(cork_three_roots_obtuse, "TCORKcalc::Cardano") { three_roots<TCORKcalc>(real_TCORKcalc, 0.5000001, 0.866025); }

// CORK: a(T), b, c, d, e published; P = RT/(V-b) - a/(sqrt(T) V (V+b)) for the MRK part (kbar, kJ/kbar), the virial part above p0
static const double RK = 0.00831451;
long int real_volume(TCORKcalc*, long int, double, double, double, double, double, double, double, double&, double&) asm("vf_real_TCORKcalc_VolumeFugacity");
template<class M> static void cork_phase(int phase, bool above) { (void)phase; double T = in("T", 250, 1500), x = in("x", 1.01, 200), b = in("b", 0.5, 10), a0 = in("a0", 1, 2000), a1 = in("a1", -2, 2), c0 = in("c0", -0.3, 0.3), c1 = in("c1", -1e-3, 1e-3), d0 = in("d0", -0.1, 0.1), d1 = in("d1", -1e-3, 1e-3), e = in("e", -0.3, 0.3), p0 = in("p0", 0.5, 10); double a = a0 + a1 * T, c = c0 + c1 * T, d = d0 + d1 * T, v = b * x, P = RK * T / (v - b) - a / (sqrt(T) * v * (v + b)); assume(P > 1e-6); if (above) assume(P > p0); else assume(P < p0); pick[0] = pick[1] = pick[2] = v;
    TCORKcalc m(1, 1000., T, 'G'); double vol, f; real_volume(&m, phase, P, p0, a, b, c, d, e, vol, f); Path s{T, v, P}; double X = P - p0, vv = 0, gv = 0, hv = 0; if (above) { vv = c * sqrt(X) + d * X + e * sqrt(sqrt(X)); hv = 2. / 3. * c0 * X * sqrt(X) + d0 / 2 * X * X + 4. / 5. * e * X * sqrt(sqrt(X)); gv = hv + T * (2. / 3. * c1 * X * sqrt(X) + d1 / 2 * X * X); }
    eq("volume", vol, v + vv); double lnf = P * v / (RK * T) - 1 - log((v - b) * P / (RK * T)) - a / (b * RK * T * sqrt(T)) * log(1 + b / v) + gv / (RK * T), G = RK * T * lnf; eq("phi", f, exp(lnf)); eq("RT d ln phi/dP = V - RT/P", s.dP(G), vol - RK * T / P);
    eq("H", G - T * s.dT(G), P * v - RK * T - (1.5 * a - T * a1) / (b * sqrt(T)) * log(1 + b / v) + hv); eq("1 + b/V = (V + b)/V", 1 + b / v, (v + b) / v); cover("end"); }
CONTRACT(cork_volume, "TCORKcalc::VolumeFugacity") { fork_eq(false); cork_phase<TCORKcalc>(choose("phase", 2) + 1, choose("above p0")); }

// of three roots the largest for a gas and the smallest positive one for a liquid (the roots come in order: first, third, second; their product is positive)
CONTRACT(cork_root, "TCORKcalc::VolumeFugacity") { fork_eq(false); double T = in("T", 250, 1500), P = in("P", 1e-3, 100), a = in("a", 100, 3000), b = in("b", 0.5, 10), v[3]; for (int i = 0; i < 3; ++i) pick[i] = v[i] = in("v" + std::to_string(i), -50, 500); assume(v[0] <= v[2]); assume(v[2] <= v[1]); assume(v[1] > 0); bool three = choose("three positive"); if (three) assume(v[0] > 0); else { assume(v[0] < 0); assume(v[2] < 0); }
    int phase = choose("phase", 2) + 1; TCORKcalc m(1, 1000., T, 'G'); double vol, f; real_volume(&m, phase, P, 1e9, a, b, 0, 0, 0, vol, f); if (phase == 1 || !three) eq("the largest", vol, v[1]); else eq("the smallest", vol, v[0]); cover("end"); }
// what the models of water and carbon dioxide ask of it, and what they make of the answer
struct Call { int phase; double p, p0, a, b, c, d, e, v, f; };
static std::vector<Call> calls;
long int TCORKcalc::VolumeFugacity(long int phase, double p, double p0, double a, double b, double c, double d, double e, double& v, double& f) { std::string n = std::to_string(calls.size()); v = in("V" + n, 1.5, 300); f = in("phi" + n, 1e-6, 1e4); calls.push_back({int(phase), p, p0, a, b, c, d, e, v, f}); return 0; }
static void cork_state(double T, double P, const double* F, double phi, double V, double H) { double G = 8.31451 * T * log(phi); (void)P; eq("fugacity coefficient", F[0], phi); eq("G", F[1], G); eq("H", F[2], H); eq("S", F[3], (H - G) / T); eq("volume", F[4], V); cover("end"); }
static double h_mrk(const Call& k, double v, double T) { return (k.p * v - RK * T + (1.5 * k.a - T * D(k.a, "T")) / (k.b * sqrt(T)) * log(v / (v + k.b))) * 1000; }
static void virial(const Call& k, double T, double& v, double& h) { v = h = 0; if (k.p > k.p0) { double X = k.p - k.p0; v = k.c * sqrt(X) + k.d * X + k.e * sqrt(sqrt(X)); h = (2. / 3. * (k.c - T * D(k.c, "T")) * X * sqrt(X) + (k.d - T * D(k.d, "T")) / 2 * X * X + 4. / 5. * k.e * X * sqrt(sqrt(X))) * 1000; } }
static double cork_run(char code, double T, double P, double* F) { calls.clear(); TCORKcalc m(1, P, T, code); double c[7] = {647.3, 221, 0, 0, 0, 0, 0}; chk("accepted", m.CORKCalcFugPure(100, c, F) == 0); return P / 1000; }
CONTRACT(cork_co2, "TCORKcalc::CORKCalcFugPure, FugacityPT, FugacityCO2") { fork_eq(false); double T = in("T", 250, 2000), P = in("P", 1e-3, 50000), F[6]; double p = cork_run('C', T, P, F); chk("one volume", calls.size() == 1); Call& k = calls[0]; chk("gas", k.phase == 1); eq("pressure", k.p, p); eq("p0", k.p0, 5); eq("a", k.a, 659.8 + 0.21078 * T - 6.3976e-4 * T * T); eq("b", k.b, 3.057); eq("c", k.c, -1.78198e-1 + 2.45317e-5 * T); eq("d", k.d, 5.40776e-3 - 1.59046e-6 * T); eq("e", k.e, 0); double vv, hv; virial(k, T, vv, hv); cork_state(T, P, F, k.f, k.v, h_mrk(k, k.v - vv, T) + hv); }
static void water(int range) { fork_eq(false); double T = range == 0 ? in("T", 250, 673) : range == 1 ? in("T", 673, 695) : in("T", 695, 2000), P = in("P", 1e-3, 50000), F[6]; double psat = -13.627e-3 + 7.29395e-7 * T * T - 2.34622e-9 * T * T * T + 4.83607e-15 * T * T * T * T * T; assume(psat < 2); double p = P / 1000.; bool liquid = range != 2 && p >= psat; cork_run('V', T, P, F);
    double u = 673 - T, hot = 1113.4 - 0.22291 * (T - 673) - 3.8022e-4 * (T - 673) * (T - 673) + 1.7791e-7 * (T - 673) * (T - 673) * (T - 673), gas = range ? hot : 1113.4 + 5.8487 * u - 2.1370e-2 * u * u + 6.8133e-5 * u * u * u, liq = range ? hot : 1113.4 - 0.88517 * u + 4.53e-3 * u * u - 1.3183e-5 * u * u * u;
    chk("volumes asked for", calls.size() == (liquid ? 3 : 1)); for (size_t i = 0; i < calls.size(); ++i) { Call& k = calls[i]; chk("phase", k.phase == (i ? 2 : 1)); eq("pressure", k.p, liquid && i < 2 ? psat : p); eq("p0", k.p0, 2); eq("a", k.a, i ? liq : gas); eq("b", k.b, 1.465); eq("c", k.c, -8.909e-2); eq("d", k.d, 1.9853e-3); eq("e", k.e, 8.0331e-2); }
    Call& z = calls.back(); double vv, hv; virial(z, T, vv, hv); double H = h_mrk(z, z.v - vv, T) + hv, phi = z.f; if (liquid) { Call &g = calls[0], &l = calls[1]; phi = g.f / l.f * z.f; H = H + h_mrk(g, g.v, T) - h_mrk(l, l.v, T) - T * D(psat, "T") * (g.v - l.v) * 1000; } cork_state(T, P, F, phi, z.v, H); }
CONTRACT(cork_h2o, "TCORKcalc::CORKCalcFugPure, FugacityPT, FugacityH2O") { water(0); }
CONTRACT(cork_h2o_673, "TCORKcalc::CORKCalcFugPure, FugacityPT, FugacityH2O") { water(1); }
CONTRACT(cork_h2o_695, "TCORKcalc::CORKCalcFugPure, FugacityPT, FugacityH2O") { water(2); }

// other fluids (Holland and Powell 1991), in CORK and in STP
template<class M> static void corresponding(long int (M::*pure)(double, double*, double*)) { fork_eq(false); double T = in("T", 250, 2000), P = in("P", 1e-3, 50000), tc = in("Tc", 20, 800), pc = in("Pc", 5, 300), F[6], c_[7] = {tc, pc, 0, 0, 0, 0, 0}; M m(1, P, T, 'G'); chk("accepted", (m.*pure)(100, c_, F) == 0); double p = P / 1000, q = pc / 1000, s = sqrt(double(T)), st = sqrt(double(tc));
    double a = 5.45963e-5 * tc * tc * st / q - 8.6392e-6 * tc * st / q * T, b = 9.18301e-4 * tc / q, c = (-3.30558e-5 * tc + 2.30524e-6 * T) / (q * sqrt(q)), d = (6.93054e-7 * tc - 8.38293e-8 * T) / (q * q);
    double V = RK * T / p + b - a * RK * s / ((RK * T + b * p) * (RK * T + 2 * b * p)) + c * sqrt(p) + d * p, G = b * p + a / (b * s) * (log(RK * T + b * p) - log(RK * T + 2 * b * p)) + 2. / 3. * c * p * sqrt(p) + d / 2 * p * p;
    eq("d(RT ln phi)/dP = V - RT/P", D(G, "P") * 1000, V - RK * T / p); G = G * 1000; eq("volume", F[4], V); eq("fugacity coefficient", log(F[0]), G / (R * T)); eq("G", F[1], G); eq("H", F[2], G - T * D(G, "T")); eq("S", F[3], -D(G, "T")); cover("end"); }
CONTRACT(cork_corresponding, "TCORKcalc::CORKCalcFugPure, FugacityPT, FugacityCorresponding") { corresponding<TCORKcalc>(&TCORKcalc::CORKCalcFugPure); }
CONTRACT(stp_corresponding, "TSTPcalc::STPCalcFugPure, FugacityPT, FugacityCorresponding") { corresponding<TSTPcalc>(&TSTPcalc::STPCalcFugPure); }
// Pitzer and Sterner (1994): the coefficients, the residual Helmholtz energy with its derivatives, and the pressure
static const nat ps_h2o[10][6] = {{0, 0, 0.24657688e6, 0.51359951e2, 0, 0}, {0, 0, 0.58638965, -0.28646939e-2, 0.31375577e-4, 0}, {0, 0, -0.62783840e1, 0.14791599e-1, 0.35779579e-3, 0.15432925e-7}, {0, 0, 0, -0.42719875, -0.16325155e-4, 0}, {0, 0, 0.56654978e4, -0.16580167e2, 0.76560762e-1, 0}, {0, 0, 0, 0.10917883, 0, 0}, {0.38878656e13, -0.13494878e9, 0.30916564e6, 0.75591105e1, 0, 0}, {0, 0, -0.65537898e5, 0.18810675e3, 0, 0}, {-0.14182435e14, 0.18165390e9, -0.19769068e6, -0.23530318e2, 0, 0}, {0, 0, 0.92093375e5, 0.12246777e3, 0, 0}};
static const nat ps_co2[10][6] = {{0, 0, 0.18261340e7, 0.79224365e2, 0, 0}, {0, 0, 0, 0.66560660e-4, 0.57152798e-5, 0.30222363e-9}, {0, 0, 0, 0.59957845e-2, 0.71669631e-4, 0.62416103e-8}, {0, 0, -0.13270279e1, -0.15210731, 0.53654244e-3, -0.71115142e-7}, {0, 0, 0.12456776, 0.49045367e1, 0.98220560e-2, 0.55962121e-5}, {0, 0, 0, 0.75522299, 0, 0}, {-0.39344644e12, 0.90918237e8, 0.42776716e6, -0.22347856e2, 0, 0}, {0, 0, 0.40282608e3, 0.11971627e3, 0, 0}, {0, 0.22995650e8, -0.78971817e5, -0.63376456e2, 0, 0}, {0, 0, 0.95029765e5, 0.18038071e2, 0, 0}};
long int real_helmholtz(TSTPcalc*, long int, double, double**) asm("vf_real_TSTPcalc_Helmholtz"); long int real_pressure(TSTPcalc*, double, double&, double&, double**) asm("vf_real_TSTPcalc_Pressure"); long int real_guess(TSTPcalc*, long int, double&) asm("vf_real_TSTPcalc_DensityGuess");
static double ps_phi(const nat (*k)[6], double T, double r) { double c[10]; for (int i = 0; i < 10; ++i) { c[i] = 0; static const int e[6] = {-4, -2, -1, 0, 1, 2}; for (int j = 0; j < 6; ++j) if (k[i][j] != 0) { double u = 1; for (int n = 0; n < (e[j] < 0 ? -e[j] : e[j]); ++n) u = e[j] < 0 ? u / T : u * T; c[i] = c[i] + double(k[i][j]) * u; } }
    return c[0] * r + (1 / (c[1] + c[2] * r + c[3] * r * r + c[4] * r * r * r + c[5] * r * r * r * r) - 1 / c[1]) - c[6] / c[7] * (exp(-c[7] * r) - 1) - c[8] / c[9] * (exp(-c[9] * r) - 1); }
static void helmholtz(bool co2) { fork_eq(false); double T = in("T", 250, 2000), r = in("rho", 1e-6, 0.08); TSTPcalc m(1, 1000., T, co2 ? 'C' : 'V'); double **cf = co2 ? m.cfc : m.cfh, f = ps_phi(co2 ? ps_co2 : ps_h2o, T, r), p, pr; real_helmholtz(&m, 0, r, cf); real_pressure(&m, r, p, pr, cf);
    eq("Phi", m.Phi[0], f); eq("Phi_T", m.dPhiT[0], D(f, "T")); eq("Phi_TT", m.dPhiTT[0], D(D(f, "T"), "T")); eq("Phi_D", m.dPhiD[0], D(f, "rho")); eq("Phi_DD", m.dPhiDD[0], D(D(f, "rho"), "rho")); eq("Phi_DT", m.dPhiDT[0], D(D(f, "rho"), "T")); eq("P = RT (rho + rho^2 Phi_D)", p, R * T * (r + r * r * D(f, "rho"))); eq("dP/drho", pr, D(p, "rho")); cover("end"); }
CONTRACT(stp_helmholtz_h2o, "TSTPcalc::Helmholtz, Pressure, set_internal") { helmholtz(false); }
CONTRACT(stp_helmholtz_co2, "TSTPcalc::Helmholtz, Pressure, set_internal") { helmholtz(true); }

// the state at the density found: Phi arbitrary, the pressure the one it gives; of the search itself, what holds when it ends
static int search = 0; static double** table; static double asked_rho, asked_p, slope, start, at;
static std::vector<double**> tables;
long int TSTPcalc::Helmholtz(long int j, double rho, double** cf) { if (!search) return real_helmholtz(this, j, rho, cf); tables.push_back(cf); at = rho; in("rho", 1e-6, 0.08); for (auto n : {"TT", "DT", "DD", "DDD", "DDT", "DTT"}) in(std::string("Phi_") + n, -1e3, 1e3); dPhiTT[j] = in("Phi_TT", -1e3, 1e3); dPhiDT[j] = in("Phi_DT", -1e3, 1e3); dPhiDD[j] = in("Phi_DD", -1e3, 1e3); dPhiDDD[j] = dPhiDDT[j] = dPhiDTT[j] = 0; if (search == 2) { dPhiT[j] = in("Phi_T", -1e3, 1e3); dPhiD[j] = in("Phi_D", -1e3, 1e3); Phi[j] = in("Phi", -1e3, 1e3); return 0; } dPhiT[j] = opaque("Phi_T", -1e3, 1e3, {{"T", "Phi_TT"}, {"rho", "Phi_DT"}}); dPhiD[j] = opaque("Phi_D", -1e3, 1e3, {{"T", "Phi_DT"}, {"rho", "Phi_DD"}}); Phi[j] = opaque("Phi", -1e3, 1e3, {{"T", "Phi_T"}, {"rho", "Phi_D"}}); return 0; }
long int TSTPcalc::Pressure(double rho, double& p, double& dp, double** cf) { if (!search) return real_pressure(this, rho, p, dp, cf); tables.push_back(cf); if (search == 1) { p = Pbar / 10.; dp = in("slope", 0.1, 1e6); return 0; } assume(tables.size() < 3); std::string k = std::to_string(tables.size()); asked_rho = rho; p = asked_p = in("p" + k, 1e-6, 1e5); dp = slope = in("slope" + k, 0.1, 1e6); return 0; }
long int TSTPcalc::DensityGuess(long int j, double& r) { if (!search) return real_guess(this, j, r); r = start; return 0; }
static void stp(bool co2) { fork_eq(false); double T = in("T", 250, 2000), rho = in("rho", 1e-6, 0.035), F[6]; in("Phi_TT", -1e3, 1e3); in("Phi_DT", -1e3, 1e3); in("Phi_DD", -1e3, 1e3); opaque("Phi_T", -1e3, 1e3, {{"T", "Phi_TT"}, {"rho", "Phi_DT"}}); double fd = opaque("Phi_D", -1e3, 1e3, {{"T", "Phi_DT"}, {"rho", "Phi_DD"}}), f = opaque("Phi", -1e3, 1e3, {{"T", "Phi_T"}, {"rho", "Phi_D"}}), P = R * T * (rho + rho * rho * fd); assume(P > 0); assume(P > 1e-3); assume(P < 9e3); start = rho; search = 1; tables.clear();
    TSTPcalc m(1, P * 10, T, co2 ? 'C' : 'V'); double c[7] = {co2 ? 304.1282 : 647.096, co2 ? 73.773 : 220.64, 0, 0, 0, 0, 0}; bool ok = m.STPCalcFugPure(100, c, F) == 0; search = 0; chk("accepted", ok); chk("the model's own coefficients", tables == std::vector<double**>(tables.size(), co2 ? m.cfc : m.cfh)); eq("density", at, rho);
    double Z = P / (rho * R * T), lnf = f + Z - 1 + log(rho) + log(R * T) - log(P), G = R * T * lnf, Pr = D(P, "rho"), Pt = D(P, "T"); auto dT = [&](double g) { return D(g, "T") - Pt / Pr * D(g, "rho"); };
    eq("volume", F[4], 1 / rho / 10); eq("fugacity coefficient", log(F[0]), lnf); eq("d(RT ln phi)/dP = V - RT/P", D(G, "rho") / Pr, 1 / rho - R * T / P); eq("G", F[1], G); eq("S", F[3], -dT(G)); eq("H", F[2], G - T * dT(G)); eq("Cp", F[5], dT(G - T * dT(G))); cover("end"); }
CONTRACT(stp_h2o, "TSTPcalc::STPCalcFugPure, FugacityPT, FugacityH2O") { stp(false); }
CONTRACT(stp_co2, "TSTPcalc::STPCalcFugPure, FugacityPT, FugacityCO2") { stp(true); }
// the search, cut at the head of its loop: the density reached so far is arbitrary, and so is the pressure there. A pass that ends the search found the pressure asked for, and the state is the one a Newton step further
static void density(bool co2) { fork_eq(false); double P = in("P", 1, 50000), F[6]; start = in("start", 1e-6, 0.03); search = 2; tables.clear(); TSTPcalc m(1, P, 700., co2 ? 'C' : 'V'); double c[7] = {co2 ? 304.1282 : 647.096, co2 ? 73.773 : 220.64, 0, 0, 0, 0, 0}; bool ok = m.STPCalcFugPure(100, c, F) == 0; search = 0; if (!ok) return; chk("the model's own coefficients", tables == std::vector<double**>(tables.size(), co2 ? m.cfc : m.cfh)); le("pressure", 1 - asked_p / (P / 10.), 1e-10); le("pressure", asked_p / (P / 10.) - 1, 1e-10); double step = -(asked_p - P / 10.) / slope, mw = co2 ? 44.0098 : 18.015268, lo = (1e-20 / 1000.) / mw, hi = (co2 ? 2400. / 1000. : 1800. / 1000.) / mw; double r = asked_rho + step; if (r < lo) r = lo; if (r > hi) r = hi; eq("density", at, r); cover("end"); }
CONTRACT(stp_density_h2o, "TSTPcalc::FugacityH2O (the search for the density, cut at an arbitrary iteration)") { density(false); }
CONTRACT(stp_density_co2, "TSTPcalc::FugacityCO2 (the search for the density, cut at an arbitrary iteration)") { density(true); }
// the density the search starts from: the vapour's below the saturation pressure and the liquid's above (Wagner and Pruss 2002, Span and Wagner 1996)
long int real_psat_h2o(TSTPcalc*, long int) asm("vf_real_TSTPcalc_PsatH2O"); long int real_psat_co2(TSTPcalc*, long int) asm("vf_real_TSTPcalc_PsatCO2");
static int saturation = 0; static bool guessing = false; static double sat_p, sat_l, sat_v;
long int TSTPcalc::PsatH2O(long int j) { if (!guessing) return real_psat_h2o(this, j); saturation += 1; Psat[j] = sat_p; Rhol[j] = sat_l; Rhov[j] = sat_v; return 0; }
long int TSTPcalc::PsatCO2(long int j) { if (!guessing) return real_psat_co2(this, j); saturation += 10; Psat[j] = sat_p; Rhol[j] = sat_l; Rhov[j] = sat_v; return 0; }
static void saturated(bool co2) { fork_eq(false); double T = co2 ? in("T", 217, 304) : in("T", 274, 647), tc = co2 ? 304.1282 : 647.096, pc = co2 ? 7.3773 : 22.064; TSTPcalc m(1, 1000., T, co2 ? 'C' : 'V'); m.Tc[0] = tc; m.Pc[0] = pc; double t = 1 - T / tc; auto sum = [&](std::initializer_list<std::array<double, 2>> l) { double s = 0; for (auto& x : l) s = s + x[0] * pow(t, x[1]); return s; };
    if (co2) { real_psat_co2(&m, 0); eq("Psat", m.Psat[0], pc * exp(tc / T * sum({{-7.0602087, 1.}, {1.9391218, 1.5}, {-1.6463597, 2.}, {-3.2995634, 4.}}))); eq("Rhol", m.Rhol[0], 467.6 * exp(sum({{1.9245108, 0.34}, {-0.62385555, 0.5}, {-0.32731127, 10. / 6.}, {0.39245142, 11. / 6.}}))); eq("Rhov", m.Rhov[0], 467.6 * exp(sum({{-1.7074879, 0.34}, {-0.82274670, 0.5}, {-4.6008549, 1.}, {-10.111178, 7. / 3.}, {-29.742252, 14. / 3.}}))); }
    else { real_psat_h2o(&m, 0); eq("Psat", m.Psat[0], pc * exp(tc / T * sum({{-7.85951783, 1.}, {1.84408259, 1.5}, {-11.7866497, 3.}, {22.6807411, 3.5}, {-15.9618719, 4.}, {1.80122502, 7.5}}))); eq("Rhol", m.Rhol[0], 322 * (1 + sum({{1.99274064, 1. / 3.}, {1.09965342, 2. / 3.}, {-0.510839303, 5. / 3.}, {-1.75493479, 16. / 3.}, {-45.5170352, 43. / 3.}, {-6.74694450e5, 110. / 3.}}))); eq("Rhov", m.Rhov[0], 322 * exp(sum({{-2.03150240, 1. / 3.}, {-2.68302940, 2. / 3.}, {-5.38626492, 4. / 3.}, {-17.2991605, 3.}, {-44.7586581, 37. / 6.}, {-63.9201063, 71. / 6.}}))); } cover("end"); }
CONTRACT(stp_saturation_h2o, "TSTPcalc::PsatH2O") { saturated(false); }
CONTRACT(stp_saturation_co2, "TSTPcalc::PsatCO2") { saturated(true); }
CONTRACT(stp_guess, "TSTPcalc::DensityGuess") { fork_eq(false); bool co2 = choose("co2"), hot = choose("above the critical temperature"); double T = hot ? co2 ? in("T above", 304.2, 2000) : in("T above water", 647.1, 2000) : co2 ? in("T", 217, 304.1) : in("T water", 274, 647), P = in("P", 1e-3, 5000), r; sat_p = in("Psat", 1e-3, 22); sat_l = in("Rhol", 320, 1200); sat_v = in("Rhov", 1e-3, 320);
    TSTPcalc m(1, P * 10., T, co2 ? 'C' : 'V'); m.Tc[0] = co2 ? 304.1282 : 647.096; m.Pc[0] = co2 ? 7.3773 : 22.064; m.Pmpa = P; guessing = true; saturation = 0; real_guess(&m, 0, r); guessing = false; double mw = co2 ? 44.0098 : 18.015268, most = co2 ? 2400 : 1800, want; chk("its own saturation curve", saturation == (hot ? 0 : co2 ? 10 : 1));
    if (!hot) want = P < sat_p ? sat_v : sat_l; else if (co2) want = P * 1000. / (0.1889241 * T); else if (P < 400.) want = 1000. / (T - 273.15) * 2. * P; else want = 800; want = want / 1000. / mw; if (want < 1e-20 / 1000. / mw) want = 1e-20 / 1000. / mw; if (want > most / 1000. / mw) want = most / 1000. / mw; eq("density", r, want); cover("end"); }
// Churakov and Gottschalk (2003): the model over its Helmholtz energy F(T, rho) = A/(RT), which is arbitrary, at the density where Z = 1 + rho F_rho gives the pressure; derivatives of F are the differences the code takes
double real_cg_F(TCGFcalc*, double, double, EOSPARAM*) asm("vf_real_TCGFcalc_FTOTALMIX"); double real_cg_rho(TCGFcalc*, double, double, EOSPARAM*) asm("vf_real_TCGFcalc_ROTOTALMIX");
static bool cg = false, cg_known; static double cg_T, cg_P, cg_rho[2], cg_F[4], cg_par[2][4];
static bool cg_params(EOSPARAM* p, int k) { double* q = cg_par[k]; double s = q[0] * q[0] * q[0]; return equal(p->sig3par[0], s) && equal(p->eps[0], q[1]) && equal(p->M2R(0), q[2] * q[2] / 1.38048e-4) && equal(p->A(0), q[3]) && equal(p->S3MIX(), s) && equal(p->EMIX(), q[1]) && equal(p->EPS(0), q[1]) && equal(p->X(0), 1) && equal(p->SIG3(0), s) && equal(p->MIXS3(0, 0), s) && equal(p->MIXES3(0, 0), s * q[1]); }
static int cg_hot(double T) { if (equal(T, cg_T)) return 0; if (!equal(T, cg_T + cg_T * 0.00001)) cg_known = false; return 1; }
double TCGFcalc::FTOTALMIX(double T, double rho, EOSPARAM* p) { if (!cg) return real_cg_F(this, T, rho, p); int hot = cg_hot(T); if (!cg_params(p, hot)) cg_known = false; if (equal(rho, cg_rho[0])) return cg_F[hot ? 2 : 0]; if (!hot && equal(rho, cg_rho[0] * (1 + double(0.00001)))) return cg_F[1]; if (hot && equal(rho, cg_rho[1])) return cg_F[3]; cg_known = false; return cg_F[0]; }
double TCGFcalc::ROTOTALMIX(double P, double T, EOSPARAM* p) { if (!cg) return real_cg_rho(this, P, T, p); int hot = cg_hot(T); if (!cg_params(p, hot) || !equal(P, cg_P / 10)) cg_known = false; return cg_rho[hot]; }
CONTRACT(cgf, "TCGFcalc::CGcalcFugPure, CGFugacityPT, CGActivCoefPT, CGResidualFunct, DENSITY, ZTOTALMIX, norm, copy, EOSPARAM::init, ParamMix") { fork_eq(false); double T = in("T", 200, 2000), P = in("P", 1e-3, 9e4), Z = in("Z", 1e-3, 50), c[12], F[6]; for (int i = 0; i < 12; ++i) c[i] = in("c" + std::to_string(i), i == 5 || i == 7 ? -1e-2 : 0.1, i == 5 || i == 7 ? 1e-2 : 400); cg_T = T; cg_P = P; double t = T; for (int k = 0; k < 2; ++k, t = T + T * 0.00001) { cg_par[k][0] = c[0] + c[4] * exp(t * c[5]); cg_par[k][1] = c[1] + c[6] * exp(t * c[7]); cg_par[k][2] = c[2] + c[8] / (t + c[9]); cg_par[k][3] = c[3] + c[10] / (t + c[11]); }
    const double r = 8.31439, d = 0.00001; cg_rho[0] = P / 10 / (Z * r * T); cg_rho[1] = in("rho at T+dT", 1e-6, 1); double f = cg_F[0] = in("F", -50, 50), ft = in("F_T", -1, 1); cg_F[1] = f + (Z - 1) * d; cg_F[2] = f + ft * T * d; cg_F[3] = in("F at T+dT", -50, 50); cg_known = true; cg = true; TCGFcalc m(1, P, T); long rc = m.CGcalcFugPure(100, c, F); cg = false; chk("accepted", rc == 0); chk("parameters, temperature, pressure and density of every value asked for", cg_known);
    double lnf = f + Z - 1 - log(Z), G = R * T * lnf, S = -R * (T * ft + f - log(Z)); eq("fugacity coefficient", F[0], exp(lnf)); eq("G", F[1], G); eq("volume", F[4], 1 / (10 * cg_rho[0])); eq("S", F[3], S); eq("H", F[2], R * T * (Z - 1 - T * ft)); eq("H = G + TS", F[2], F[1] + T * F[3]); cover("end"); }
// the Helmholtz energy itself: dispersion, dipoles (Pade approximant of the second and third order) and induction (Gubbins and Twu 1978), over arbitrary correlation integrals
double real_cg_fwca(TCGFcalc*, double, double) asm("vf_real_TCGFcalc_FWCA"); double real_cg_j6(TCGFcalc*, double, double) asm("vf_real_TCGFcalc_J6LJ"); double real_cg_k(TCGFcalc*, double, double) asm("vf_real_TCGFcalc_K23_13");
static bool cg_int = false; static double cg_red[2];
static void cg_args(double t, double r) { if (!equal(t, cg_red[0]) || !equal(r, cg_red[1])) cg_known = false; }
static bool cg_wca = false;
double TCGFcalc::FWCA(double t, double r) { if (cg_wca) { double T = cg_red[0], q = cg_red[1], F = in("F WCA", -50, 50); if (equal(t, T) && equal(r, q)) return F; if (equal(t, T) && equal(r, q * (1 + double(0.00001)))) return F + (in("Z", -5, 50) - 1) * 0.00001; if (equal(r, q) && equal(t, 1 / (1 / T * (1 + double(0.00001))))) return F + in("U", -50, 50) / T * 0.00001; cg_known = false; return F; } if (!cg_int) return real_cg_fwca(this, t, r); cg_args(t, r); return in("F WCA", -50, 50); }
double TCGFcalc::J6LJ(double t, double r) { if (!cg_int) return real_cg_j6(this, t, r); cg_args(t, r); return in("J6", 0.01, 50); }
double TCGFcalc::K23_13(double t, double r) { if (!cg_int) return real_cg_k(this, t, r); cg_args(t, r); return in("K", 0.01, 50); }
CONTRACT(cgf_helmholtz, "TCGFcalc::FTOTALMIX, EOSPARAM::init, ParamMix") { fork_eq(false); double T = in("T", 200, 2000), rho = in("rho", 1e-6, 1), s = in("sigma", 1, 6), e = in("eps", 10, 1000), a = in("alpha", 0, 10), q[4] = {s, e, 0, a}; bool polar = choose("polar"); double m = polar ? in("mu", 0.1, 5) : double(0); q[2] = m; TCGFcalc c(1, 1., T); double x[1]; x[0] = 1; EOSPARAM par(x, q, 1); par.ParamMix(x); double s3 = s * s * s, n = 0.6023 * rho, u = m * m / 1.38048e-4; cg_red[0] = T / e; cg_red[1] = s3 * n; cg_known = true; cg_int = true; double f = real_cg_F(&c, T, rho, &par); cg_int = false; chk("reduced temperature and density", cg_known);
    double J = in("J6", 0.01, 50), K = in("K", 0.01, 50), w = in("F WCA", -50, 50), pi = 3.141592653589793, A2 = -2 * pi / 3 * n * u * u * J / (s3 * T * T), A3 = 32 * pi * pi * pi / 135 * sqrt(14 * pi / 5) * n * n * u * u * u * K * K * K / (s3 * T * T * T), A1 = -4 * pi * n * a * u * J / (s3 * T); if (polar) { eqc("dipoles", f - w - A1, A2 / (1 - A3 / A2), 1e-12); } else eq("dispersion alone", f, w); cover("end"); }
// what the Helmholtz energy is made of. The integral of the dipole pair term comes from the reference fluid by differences; that of the triple term is a fitted function; neither depends on what was asked before
double real_cg_d(TCGFcalc*, double, double) asm("vf_real_TCGFcalc_dHS"); double real_cg_rpa(TCGFcalc*, double, double) asm("vf_real_TCGFcalc_RPA"); double real_cg_z(TCGFcalc*, double, double, EOSPARAM*) asm("vf_real_TCGFcalc_ZTOTALMIX");
static bool cg_ref = false, cg_dens = false; static double cg_arg[2]; static std::vector<std::array<double, 2>> cg_points;
double TCGFcalc::dHS(double beta, double r) { if (!cg_ref) return real_cg_d(this, beta, r); if (!equal(beta, 1 / cg_arg[0]) || !equal(r, cg_arg[1])) cg_known = false; return in("d", 0.8, 1.1); }
double TCGFcalc::RPA(double beta, double n) { if (!cg_ref) return real_cg_rpa(this, beta, n); double d = in("d", 0.8, 1.1), y = 0.523598775598298927 * d * d * d * cg_arg[1]; if (!equal(beta, 1 / cg_arg[0]) || !equal(n, y * (1 - y / 16))) cg_known = false; return in("F RPA", -10, 10); }
double TCGFcalc::ZTOTALMIX(double T, double rho, EOSPARAM* p) { if (!cg_dens) return real_cg_z(this, T, rho, p); if (!equal(T, cg_T)) cg_known = false; double x = in("p" + std::to_string(cg_points.size()), -1e5, 1e6); cg_points.push_back({rho, x}); return x / (rho * 8.31439 * T); }
static void cg_before(double (*f)(TCGFcalc*, double, double), TCGFcalc& m, double T, double r) { f(&m, 7, 3); switch (choose("asked before", 4)) { case 0: break; case 1: f(&m, T, in("other rho", 0.01, 1)); break; case 2: f(&m, in("other T", 0.2, 50), r); break; default: f(&m, T, r); } }
CONTRACT(cgf_triple_dipole, "TCGFcalc::K23_13") { fork_eq(false); double T = in("T", 0.2, 50), r = in("rho", 0.01, 1), l = log(T); TCGFcalc m(1, 1., 300.); cg_before(real_cg_k, m, T, r); eq("K", real_cg_k(&m, T, r), exp((-1.050534 * r * r * l + 1.747476 * r * r + 1.749366 * r * l - 1.999227 * r - 0.661046 * l - 3.028720) / 3)); cover("end"); }
CONTRACT(cgf_dipole_pair, "TCGFcalc::J6LJ, ZWCANum, UWCANum") { fork_eq(false); double T = in("T", 0.2, 50), r = in("rho", 0.01, 1); TCGFcalc m(1, 1., 300.); cg_wca = true; cg_known = true; cg_red[0] = T; cg_red[1] = r; double J = real_cg_j6(&m, T, r); cg_wca = false; chk("states of the reference fluid", cg_known); double Z = in("Z", -5, 50), U = in("U", -50, 50), pi = 3.141592653589793120; eq("J", J, (4 * U / T - (Z - 1)) / (-16 * pi * r / T)); cover("end"); }
// the reference fluid: hard spheres of diameter d (Carnahan and Starling), and the potential beyond the minimum over the pair correlation of spheres of diameter dW. Inside the minimum, at R, the potential is -1: there the integral of the full potential is taken back, with x g(x) the cubic of the four a
CONTRACT(cgf_reference, "TCGFcalc::FWCA, fI1_6, fI1_12, fa0, fa1, fa2, fa3, set_internal") { fork_eq(false); double T = in("T", 0.2, 50), r = in("rho", 0.01, 1), d = in("d", 0.8, 1.1), F; TCGFcalc m(1, 1., 300.); cg_ref = true; auto at = [&](double t, double q) { cg_arg[0] = t; cg_arg[1] = q; return real_cg_fwca(&m, t, q); }; cg_known = true; at(7, 3); switch (choose("asked before", 4)) { case 0: break; case 1: at(T, in("other rho", 0.01, 1)); break; case 2: at(in("other T", 0.2, 50), r); break; default: at(T, r); } F = at(T, r); cg_ref = false; chk("diameter and correction are those of this state", cg_known);
    double y = 0.523598775598298927 * d * d * d * r, w = y * (1 - y / 16), dw = d * exp(log(1 - y / 16) / 3), u = 1 - w, a[4] = {(.9985937977069455 + .5079834224407451 * w) / (u * u), (1.021887697885469 - 5.136619463333883 * w - 5.196188074016755 * w * w) / (u * u * u), (-6.049240839050804 * w + 18.67848155616692 * w * w + 20.10652684217768 * w * w * w) / (u * u * u * u), (9.896491419756988 * w + 14.6738380473899 * w * w - 77.44825116542995 * w * w * w - 4.82871082941229 * w * w * w * w) / (u * u * u * u * u)};
    double I6 = (1 + 1.16965477132 * w - .410564939543 * w * w - .516834310691 * w * w * w) / (3 * (1 - 0.120078459237 * w - .808712488307 * w * w + .321543801337 * w * w * w)), I12 = (1 - .189396607904 * w - .576898496254 * w * w - 0.0185167641359 * w * w * w) / (9 * (1 - 2.18839961483 * w + 1.59897428009 * w * w - .392578806128 * w * w * w));
    double c[4] = {a[0] - a[1] + a[2] / 2 - a[3] / 6, a[1] - a[2] + a[3] / 2, a[2] / 2 - a[3] / 2, a[3] / 6}, d6 = dw * dw * dw * dw * dw * dw, Rm = 1.12246204830937302 / dw, I = 0, x = Rm; for (int n = 0; n < 4; ++n) { x = x * Rm; double k = n; I = I + c[n] * (x * (-1 / (4 * (k + 2)) - 1 / (4 * (k - 10)) + 1 / (2 * (k - 4))) + 1 / (4 * (k + 2)) + 1 / ((k - 10) * d6 * d6) - 1 / ((k - 4) * d6)); }
    eq("F", F, (4 - 3 * y) * y / ((1 - y) * (1 - y)) + 48 * w / T * (I12 / (d6 * d6) - I6 / d6 + I) + in("F RPA", -10, 10)); cover("end"); }
CONTRACT(cgf_second_order, "TCGFcalc::RPA") { fork_eq(false); double b = in("beta", 0.02, 5), y = in("nu", 1e-6, 0.6), f = 0, g = 0; TCGFcalc m(1, 1., 300.); nat p[] = {1.20110, 0.064890, -76.860, 562.686, -2280.090, 6266.840, -11753.40, 14053.8, -9491.490, 2731.030}, q[] = {0.588890, -7.455360, 40.57590, -104.8970, 60.25470, 390.6310, -1193.080, 1576.350, -1045.910, 283.7580}; double z = 1; for (int i = 0; i < 10; ++i) { z = z * y; f = f + double(p[i]) * z; g = g + double(q[i]) * z * y; } eq("F", real_cg_rpa(&m, b, y), (-12 * f + 192 * g * b) * b * b / 3.141592653589793120); cover("end"); }
// the diameter comes from its equation by Newton's method
CONTRACT(bounded_cgf_diameter, "TCGFcalc::dHS (up to four steps)") { fork_eq(false); limit_branches(5); double b = in("beta", 0.02, 5), r = in("rho", 1e-4, 1.2); TCGFcalc m(1, 1., 300.); double got = real_cg_d(&m, b, r); double s = sqrt(b), dB = (1.186892378996 * exp(log(b) / 12) - 0.4721963005527 * exp(7 * log(b) / 12) + 3.259515855283 * b + 3.055229342609 * b * b + 1.095409321023 * b * b * b) / ((1 + b) * (1 + b) * (1 + b)), del = (1.282306659774E-2 + 9.55712461425E-2 * s) / (1 + 13.67807693107 * s + 35.75464856619 * s * s + 16.04724381643 * s * s * s), e = dB * del, n = 0.523598775598298927 * r, d = dB; 
    auto F = [&](double x) { double x3 = x * x * x; return dB + e - x + (-1.5 * dB - 3.75 * e) * n * x3 + 1.5 * n * x3 * x + (2 * dB + e) / 4 * n * n * x3 * x3 - n * n / 2 * x3 * x3 * x - 2.89325 * n * n * n * e * x3 * x3 * x3 - 0.755 * n * n * n * n * e * x3 * x3 * x3 * x3; }; bool found = false;
    for (int i = 0; i < 6 && !found; ++i) { double next, x3 = d * d * d; double slope = -1 + 3 * (-1.5 * dB - 3.75 * e) * n * d * d + 6 * n * x3 + 6 * (2 * dB + e) / 4 * n * n * x3 * d * d - 7 * n * n / 2 * x3 * x3 - 9 * 2.89325 * n * n * n * e * x3 * x3 * d * d - 12 * 0.755 * n * n * n * n * e * x3 * x3 * x3 * d * d; next = d - F(d) / slope; if (equal(got, next)) { found = true; } d = next; }
    chk("a step of Newton's method", found); cover("end"); }
// outside its range a model leaves the ideal gas
template<class M> static void outside(M& m, long int (M::*pure)(double, double*, double*), double low, double T, double P) { double c[12] = {600, 100, 0.1, 0, 0, 0, 0, 0, 0, 0, 0, 0}, F[6]; (m.*pure)(low, c, F); eq("fugacity coefficient", F[0], 1); eq("G", F[1], 0); eq("H", F[2], 0); eq("S", F[3], 0); eq("volume", F[4], R * T / P); cover("end"); }
CONTRACT(outside_range, "PRSVCalcFugPure, SRKCalcFugPure, PR78CalcFugPure, CORKCalcFugPure, STPCalcFugPure, CGcalcFugPure outside their range") { fork_eq(false); bool cold = choose("below the lowest temperature"); double T = in("T", 250, 1900), P = cold ? in("P", 1, 5000) : in("P high", 1e5, 1e6), low = in("low", 100, 2500); if (cold) assume(T < low);
    switch (choose("model", 6)) { case 0: { TCORKcalc m(1, P, T, 'G'); outside(m, &TCORKcalc::CORKCalcFugPure, low, T, P); break; } case 1: { TPRSVcalc m(1, P, T); outside(m, &TPRSVcalc::PRSVCalcFugPure, low, T, P); break; } case 2: { TCGFcalc m(1, P, T); outside(m, &TCGFcalc::CGcalcFugPure, low, T, P); break; } case 3: { TSRKcalc m(1, P, T); outside(m, &TSRKcalc::SRKCalcFugPure, low, T, P); break; } case 4: { TPR78calc m(1, P, T); outside(m, &TPR78calc::PR78CalcFugPure, low, T, P); break; } default: { TSTPcalc m(1, P, T, 'V'); outside(m, &TSTPcalc::STPCalcFugPure, low, T, P); } } }
CONTRACT(stp_hot, "TSTPcalc::STPCalcFugPure above 2000 K") { double T = in("T", 2000.5, 9999), P = in("P", 1, 5000); TSTPcalc m(1, P, T, choose("water") ? 'V' : 'G'); outside(m, &TSTPcalc::STPCalcFugPure, 100, T, P); }
// a gas's properties out of the model's answer
namespace ThermoFun { using TPS = ThermoPropertiesSubstance; 
#define GAS(X) auto thermoPropertiesGas##X(Reaktoro_::Temperature, Reaktoro_::Pressure, Substance, TPS) -> TPS;
GAS(CORK) GAS(PRSV) GAS(CGF) GAS(SRK) GAS(PR78) GAS(STP) }
using namespace ThermoFun;
CONTRACT(gas_properties, "thermoPropertiesGasCORK, thermoPropertiesGasPRSV, thermoPropertiesGasCGF, thermoPropertiesGasSRK, thermoPropertiesGasPR78, thermoPropertiesGasSTP") { fork_eq(false); double T = in("T", 250, 2000), P = in("P", 1, 5000), low = in("low", 100, 400); Substance s; int gas = choose("gas", 3), k = choose("model", 6); s.setSymbol("X"); s.setName("X"); s.setFormula(gas == 0 ? "CO2" : gas == 1 ? "H2O" : "CH4"); ThermoParametersSubstance p; p.temperature_intervals = {{low, 1e4}}; int all = k == 2 ? 12 : 7, n = choose("parameters given", 2) ? all : 4; for (int i = 0; i < n; ++i) p.critical_parameters.push_back(in("c" + std::to_string(i), 0, 1000)); s.setThermoParameters(p);
    TPS t; for (auto f : {&TPS::gibbs_energy, &TPS::enthalpy, &TPS::entropy, &TPS::volume, &TPS::heat_capacity_cp, &TPS::heat_capacity_cv, &TPS::internal_energy, &TPS::helmholtz_energy}) t.*f = Reaktoro_::ThermoScalar(0.); t.gibbs_energy.val = in("G", -1e6, 1e6); t.enthalpy.val = in("H", -1e6, 1e6); t.entropy.val = in("S", -1e3, 1e3); t.heat_capacity_cp.val = in("Cp", 0, 500); Asked a; a.model = -1; asked = &a; Reaktoro_::Temperature TT(T); Reaktoro_::Pressure PP(P);
    TPS r = k == 0 ? thermoPropertiesGasCORK(TT, PP, s, t) : k == 1 ? thermoPropertiesGasPRSV(TT, PP, s, t) : k == 2 ? thermoPropertiesGasCGF(TT, PP, s, t) : k == 3 ? thermoPropertiesGasSRK(TT, PP, s, t) : k == 4 ? thermoPropertiesGasPR78(TT, PP, s, t) : thermoPropertiesGasSTP(TT, PP, s, t); asked = nullptr;
    chk("its own model is asked", a.model == k); eq("temperature", a.T, T); eq("pressure", a.P, P); eq("lowest temperature", a.low, low); for (int i = 0; i < all; ++i) eq("parameter", a.c[i], i < n ? p.critical_parameters[i] : double(0)); if (k == 0 || k == 5) chk("fluid", a.code == (gas == 0 ? 'C' : gas == 1 ? 'V' : 'G'));
    eq("H", r.enthalpy.val, t.enthalpy.val + a.F[2]); eq("S", r.entropy.val, t.entropy.val + a.F[3]); eq("volume", r.volume.val, a.F[4]); eq("Cp", r.heat_capacity_cp.val, t.heat_capacity_cp.val); cover("end"); }

// C09: the SUPCRT92 water (Haar, Gallagher & Kell 1984): its functions of temperature and density.
#include "subst.hpp"
#define private public
#include "ThermoFun/Substances/Solvent/WaterHGK-JNgems.h"
#undef private
typedef WaterHGKgems W;
static W& gems() { static std::vector<W*>* keep = new std::vector<W*>; keep->push_back(new W); return *keep->back(); }
static double dT(double x) { return D(x, "T"); } static double dD(double x) { return D(x, "d"); }
struct St { W& w; double T, d, rt, R; };
// every state away from the points where a term of the residual function passes its cut-off
static St state(double T, double d) { W& w = gems(); w.a1.rt = w.ac->gascon * T; w.bb(T); w.resid(T, &d); w.base(&d, T); w.ideal(T); w.thmHGK(&d, T); return {w, T, d, w.a1.rt, w.ac->gascon}; }
static St any() { fork_eq(false); int k = choose("density", 3); nat lo[] = {1e-6, 0.31901, 0.16}, hi[] = {0.15, 1.549, 0.31899}; double T = in("T", 274, 2500), d = in("d", lo[k], hi[k]); return state(T, d); }
CONTRACT(hgk_bb, "WaterHGKgems::bb") { double T = in("T", 274, 2500); W& w = gems(); w.bb(T); auto& e = *w.el; eq("b' = db/dT", e.b1t, dT(e.b1)); eq("b''", e.b1tt, dT(e.b1t)); eq("B' = dB/dT", e.b2t, dT(e.b2)); eq("B''", e.b2tt, dT(e.b2t)); cover("end"); }
CONTRACT(hgk_pressure, "WaterHGKgems::resid, base, thmHGK: pressure and its derivatives") { St s = any(); auto& f = s.w.fct; double P = s.rt * s.d * s.w.ac->zb + s.w.qq.q0; eq("dP/dd", f.dpdd, dD(P)); eq("dP/dT", f.dpdt, dT(P)); cover("end"); }
CONTRACT(hgk_energy, "WaterHGKgems::resid, base, ideal, thmHGK: energies") { St s = any(); auto& f = s.w.fct; double d = s.d, rt = s.rt, P = rt * d * s.w.ac->zb + s.w.qq.q0, U = f.ud * rt; 
    eq("dU/dd = (P - T dP/dT)/d^2", dD(U) * d * d, P - s.T * f.dpdt); eq("Cv = dU/dT", f.cvd * s.R, dT(U)); eq("A = U - TS", f.ad * rt, U - s.T * f.sd * s.R); eq("G = A + P/d", f.gd * rt, f.ad * rt + P / d); eq("H = U + P/d", f.hd * rt, U + P / d); eq("Cp", f.cpd * s.R, f.cvd * s.R + s.T * f.dpdt * f.dpdt / (d * d * f.dpdd)); eq("dv/dT", f.dvdt, f.dpdt / f.dpdd / (d * d)); cover("end"); }
CONTRACT(hgk_dalpha, "WaterHGKgems::dalHGK") { St s = any(); double a = s.d * s.w.fct.dvdt; eq("d(alpha)/dT at constant pressure", s.w.dalHGK(&s.d, s.T, a), dT(a) - s.d * a * dD(a)); cover("end"); }
// --- the Helmholtz energy behind them. Two of its published coefficients are rounded at the ninth digit, so
// dA/dd is the pressure up to a multiple of (d/dd)(1/x^2) that the rounding explains.
CONTRACT(hgk_potential, "WaterHGKgems::resid, base, ideal, thmHGK: A is the potential") { St s = any(); auto& f = s.w.fct; double d = s.d, rt = s.rt, P = rt * d * s.w.ac->zb + s.w.qq.q0, A = f.ad * rt, x = 1 - s.w.el->b1 * d / 4, c = double(28.16666667) / (x * x), A0 = A - c * rt;
    eqc("P = d^2 dA/dd", P - d * d * dD(A0), d * d * dD(c * rt), 1e-8); eqc("U = -T^2 d(A/T)/dT, hence with A = U - TS also S = -dA/dT", f.ud * rt / (s.T * s.T) + dT(A0 / s.T), -dT(c * s.R), 1e-8); cover("end"); }
// --- the published function (Haar, Gallagher & Kell 1984), per gram
static const nat g_i[] = {-0.53062968529023e3, 0.22744901424408e4, 0.78779333020687e3, -0.69830527374994e2, 0.17863832875422e5, -0.39514731563338e5, 0.33803884280753e5, -0.13855050202703e5, -0.25637436613260e6, 0.48212575981415e6, -0.34183016969660e6, 0.12223156417448e6, 0.11797433655832e7, -0.21734810110373e7, 0.10829952168620e7, -0.25441998064049e6, -0.31377774947767e7, 0.52911910757704e7, -0.13802577177877e7, -0.25109914369001e6, 0.46561826115608e7, -0.72752773275387e7, 0.41774246148294e6, 0.14016358244614e7, -0.31555231392127e7, 0.47929666384584e7, 0.40912664781209e6, -0.13626369388386e7, 0.69625220862664e6, -0.10834900096447e7, -0.22722827401688e6, 0.38365486000660e6, 0.68833257944332e4, 0.21757245522644e5, -0.26627944829770e4, -0.70730418082074e5, -0.225, -1.68, 0.055, -93};
static const int k_i[] = {1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 6, 6, 6, 6, 7, 7, 7, 7, 9, 9, 9, 9, 3, 3, 1, 5}, l_i[] = {2, 3, 5, 7, 2, 3, 5, 7, 2, 3, 5, 7, 2, 3, 5, 7, 2, 3, 5, 7, 2, 3, 5, 7, 2, 3, 5, 7, 2, 3, 5, 7, 1, 4, 4, 4};
static const nat t_i[] = {640, 640, 641.6, 270}, d_i[] = {0.319, 0.319, 0.319, 1.55}, a_i[] = {34, 40, 30, 1050}, b_i[] = {20000, 20000, 40000, 25};
static const nat C_i[] = {0.19730271018e2, 0.209662681977e2, -0.483429455355, 0.605743189245e1, 0.2256023885e2, -0.987532442e1, -0.43135538513e1, 0.458155781, -0.47754901883e-1, 0.41238460633e-2, -0.27929052852e-3, 0.14481695261e-4, -0.56473658748e-6, 0.16200446e-7, -0.3303822796e-9, 0.451916067368e-11, -0.370734122708e-13, 0.137546068238e-15};
static double nz(nat x) { return double(x); }
CONTRACT(hgk_published, "WaterHGKgems::resid, base, ideal against the published function") { St s = any(); double T = s.T, d = s.d, u = T / nz(647.073), R = nz(0.461522);
    double b = nz(0.7478629) + nz(-0.3540782) * std::log(u) + nz(0.007159876) / (u * u * u) + nz(-0.003528426) / (u * u * u * u * u), B = nz(1.1278334) - nz(0.5944001) / u - nz(5.010996) / (u * u) + nz(0.63684256) / (u * u * u * u), y = b * d / 4, x = 1 - y;
    eq("base function", s.w.ba.ab, -std::log(x) - nz(43.333333333333) / x + nz(28.16666667) / (x * x) + 4 * y * (B / b - nz(3.5)) + nz(15.166666667) + std::log(d * T * R / nz(0.101325)));
    double e = 0, z = 1 - std::exp(-d); for (int i = 0; i < 36; ++i) e += nz(g_i[i]) / k_i[i] * std::pow(u, 1 - l_i[i]) * std::pow(z, k_i[i]) / u;
    double r = 0; for (int i = 0; i < 4; ++i) { double de = d / nz(d_i[i]) - 1, ta = T / nz(t_i[i]) - 1; double f = -nz(a_i[i]) * (i == 3 ? de * de * de * de : de * de), h = -nz(b_i[i]) * ta * ta; if (!(f < nz(-673.5)) && !(h <= nz(-673.5))) r += nz(g_i[36 + i]) * (i == 1 ? de * de : double(1)) * std::exp(f) * std::exp(h); }
    eq("residual function", s.w.res.ar * s.rt, e * u + r);
    double t = T / 100, G = -(nz(C_i[0]) / t + nz(C_i[1])) * std::log(t); for (int i = 2; i < 18; ++i) G -= nz(C_i[i]) * std::pow(t, i - 5); eq("ideal gas function", s.w.id.ai, G - 1); eq("their sum, moved to the reference state", s.w.fct.ad, s.w.ba.ab + s.w.res.ar + s.w.id.ai + nz(4328.455039) / T + nz(7.6180802)); cover("end"); }
// --- the state found for a pressure. From here on the functions above are replaced by their contracts.
namespace { struct Hook { std::function<void(W*, double, double*)> state; std::function<void(W*, double*, double)> thm; std::function<void(W*, double*, double*, double, double)> den; std::function<void(W*, double*, double*, double*)> sat; std::function<double(W*, double*, double)> dal; std::function<void(W*)> at; std::function<double(double)> ps; std::function<void(W*, int, double)> critical; std::function<void(W*, int)> critical_density; bool inner = false; } hook; }
#define REAL(R, N, ...) R real_##N(W*, ##__VA_ARGS__) asm("vf_real_" #N);
REAL(void, resid, double, double*) REAL(void, base, double*, double) REAL(void, thmHGK, double*, double) REAL(void, denHGK, double*, double*, double, double, double*) REAL(void, pcorr, int, double, double*, double*, double*, int) REAL(double, dalHGK, double*, double, double) REAL(double, dalLVS, double, double, double, double) REAL(void, bb, double) REAL(void, ideal, double)
REAL(double, PsHGK, double) REAL(double, surten, double) REAL(double, viscos, double, double, double, double) REAL(double, thcond, double, double, double, double, double) REAL(void, LVSsat, int, int, double*, double*, double*) REAL(void, denLVS, int, double, double) REAL(void, thmLVS, int, double, double, double)
REAL(void, Born92, double, double, double, double, double*, double*, double*, double*, double*, double*, double*, int) REAL(void, valid, int, int, int, int, int, int, int, int, int, double, double*, double*, int*) REAL(double, Pfind, int, double, double)
namespace ThermoFun {
auto W::resid(double t, double* d) -> void { if (hook.state) hook.state(this, t, d); else real_resid(this, t, d); }
auto W::base(double* d, double t) -> void { if (hook.state) hook.state(this, t, d); else real_base(this, d, t); }
auto W::thmHGK(double* d, double t) -> void { if (hook.thm) hook.thm(this, d, t); else real_thmHGK(this, d, t); }
auto W::denHGK(double* d, double* p, double g, double t, double* dpdd) -> void { if (hook.den) hook.den(this, d, p, g, t); else real_denHGK(this, d, p, g, t, dpdd); }
auto W::pcorr(int i, double t, double* p, double* l, double* v, int e) -> void { if (hook.sat) hook.sat(this, p, l, v); else real_pcorr(this, i, t, p, l, v, e); }
auto W::dalHGK(double* d, double t, double a) -> double { return hook.dal ? hook.dal(this, d, a) : real_dalHGK(this, d, t, a); }
auto W::dalLVS(double d, double t, double p, double a) -> double { if (hook.dal) { d = d / 1000; return hook.dal(this, &d, a); } return real_dalLVS(this, d, t, p, a); }
auto W::bb(double t) -> void { if (!hook.inner) real_bb(this, t); }
auto W::ideal(double t) -> void { if (!hook.inner) real_ideal(this, t); }
auto W::PsHGK(double t) -> double { return hook.ps ? hook.ps(t) : real_PsHGK(this, t); }
auto W::Pfind(int i, double t, double d) -> double { return hook.ps ? hook.ps(t) : real_Pfind(this, i, t, d); }
auto W::surten(double t) -> double { return hook.inner ? double(1) : real_surten(this, t); }
auto W::viscos(double t, double p, double d, double b) -> double { return hook.inner ? double(1) : real_viscos(this, t, p, d, b); }
auto W::thcond(double t, double p, double d, double a, double b) -> double { return hook.inner ? double(1) : real_thcond(this, t, p, d, a, b); }
auto W::Born92(double t, double p, double d, double b, double* a, double* da, double* e, double* z, double* q, double* y, double* x, int n) -> void { if (!hook.inner) real_Born92(this, t, p, d, b, a, da, e, z, q, y, x, n); }
auto W::valid(int a, int b, int c, int d, int e, int f, int g, int h, int i, double t, double* p, double* dd, int* r) -> void { if (!hook.inner) real_valid(this, a, b, c, d, e, f, g, h, i, t, p, dd, r); }
auto W::LVSsat(int o, int s, double* t, double* p, double* d) -> void { if (hook.critical) { if (s) *p = hook.ps(*t); else if (choose("within the tolerance of the saturation line")) aSpc.isat = 1; } else real_LVSsat(this, o, s, t, p, d); }
auto W::denLVS(int s, double t, double p) -> void { if (hook.critical) hook.critical_density(this, s); else real_denLVS(this, s, t, p); }
auto W::thmLVS(int s, double t, double r, double th1) -> void { if (hook.critical) hook.critical(this, s, th1); else real_thmLVS(this, s, t, r, th1); }
}
// the solver: an iterate whose pressure is the one asked for is returned, any other is not
struct Stop { double d; };
CONTRACT(hgk_density, "WaterHGKgems::denHGK: every iterate") { fork_eq(false); W& w = gems(); int r = choose("guess", 3), k = choose("mismatch", 4); nat lo[] = {0.01, 0.31, 0.71}, hi[] = {0.29, 0.69, 1.8}, ms[] = {0.9e-8, -0.9e-8, 2e-6, -2e-6}; double T = in("T", 274, 2000), d = in("d", lo[r], hi[r]), e = double(ms[k]); w.a1.rt = w.ac->gascon * T;
    // the pressure as some function of the density
    double z0 = in("z0", 0.5, 1.5), z1 = in("z1", -0.2, 0.5), q2 = in("q2", 0, 100), P = w.a1.rt * d * (z0 + z1 * d) + q2 * d * d; int calls = 0; double first = 0;
    hook = {}; hook.state = [&](W* w, double t, double* x) { eq("at the temperature of the query", t, T); if (calls++ == 0) first = *x; else if (!equal(*x, first)) throw Stop{*x}; w->ac->zb = w->ba.pb = z0 + z1 * *x; w->ac->yb = *x; w->ac->dzb = z1; w->qq.q0 = q2 * *x * *x; w->qq.q5 = 2 * q2 * *x; };
    double p = P / (1 - e), x = 0, dp = 0; bool again = false; assume(P > 0); assume(w.a1.rt * (z0 + 2 * z1 * d) + 2 * q2 * d > 0); try { w.denHGK(&x, &p, d, T, &dp); } catch (Stop& s) { again = true; x = s.d; } hook = {}; 
    if (!again) { chk("accepted only within the tolerance", k < 2); eq("it is the density of that pressure", x, d); eq("dP/dd", dp, dD(P)); } else { chk("within the tolerance it is accepted", k >= 2); le("the next iterate moves towards the solution", 0, (x - d) * (p - P)); } cover("end"); }
// --- from the query to what is returned: phases and units. A phase is any Gibbs energy g(T,P), J/g and bar.
namespace { struct Phase { double g, t, p, tt, tp, pp, d, a, A, U, S, H, dpdd; int k; }; const double MPa = 10;
Phase phase(int k) { std::string n = k ? "v" : "l"; typedef std::initializer_list<std::pair<std::string, std::string>> L; for (auto x : {"ttt", "ttp", "tpp", "ppp"}) in(n + x, -1e-3, 1e-3); auto o = [&](const char* x, nat lo, nat hi, const char* t, const char* p) { return opaque(n + x, lo, hi, L{{"T", n + t}, {"P", n + p}}); };
    Phase f; f.k = k; f.tt = o("tt", -0.1, -0.01, "ttt", "ttp"); f.tp = o("tp", 1e-4, 1e-3, "ttp", "tpp"); f.pp = o("pp", -1e-3, -1e-5, "tpp", "ppp"); f.t = o("t", -9, 3, "tt", "tp"); f.p = k ? o("p", 0.5, 50, "tp", "pp") : o("p", 0.1, 0.2, "tp", "pp"); f.g = o("g", -1000, 1000, "t", "p"); f.d = 1 / (MPa * f.p); f.a = f.tp / f.p; return f; }
void fill(Phase& f, double T, double P) { f.S = -f.t; f.H = f.g + T * f.S; f.U = f.H - P * f.p; f.A = f.g - P * f.p; f.dpdd = -f.p * f.p / f.pp; }
double mol(double x) { return x * double(18.0155); }
// what the output must be for this phase: identities among the numbers returned, in J/mol, J/bar, kg/m3, Pa
void output(const std::string& n, const ThermoPropertiesSubstance& r, const PropertiesSolvent& s, const Phase& f, double T, double P, const WaterTripleProperties& w) { nat tol = 3e-5; auto dt = [](double x) { return D(x, "T"); }; auto dp = [](double x) { return D(x, "P"); };
    double G = r.gibbs_energy.val, H = r.enthalpy.val, S = r.entropy.val, U = r.internal_energy.val, A = r.helmholtz_energy.val, V = r.volume.val, rho = s.density.val;
    eq(n + "density of the phase asked for, kg/m3", rho, 1000 * f.d); eqc(n + "volume, J/bar/mol", V * rho, double(1801.5), tol); eq(n + "pressure, Pa", s.pressure.val, P * 1e5);
    eqc(n + "entropy", S - w.Str, mol(f.S), tol); eqc(n + "enthalpy", H - w.Htr, mol(f.H), tol); eqc(n + "internal energy", U - w.Utr, mol(f.U), tol); eq(n + "dG/dT = -S", dt(G), -S); eqc(n + "dG/dP = V", dp(G), V, tol); eqc(n + "Cp = dH/dT", r.heat_capacity_cp.val, dt(H), tol); eqc(n + "G", G - w.Gtr + (T - double(273.16)) * w.Str, mol(f.g), tol); eqc(n + "A", A - w.Atr + (T - double(273.16)) * w.Str, mol(f.A), tol);
    eqc(n + "Cp - Cv = T V alpha^2 / beta", (r.heat_capacity_cp.val - r.heat_capacity_cv.val) * s.Beta.val * 1e5, T * V * s.Alpha.val * s.Alpha.val, tol);
    eq(n + "alpha", s.Alpha.val, -dt(rho) / rho); eq(n + "beta per Pa", s.Beta.val, dp(rho) / rho / 1e5); eq(n + "density_T", s.densityT.val, dt(rho)); eq(n + "density_TT", s.densityTT.val, dt(dt(rho))); eq(n + "density_P per Pa", s.densityP.val, dp(rho) / 1e5); }
}
// what is asked of the water, and the hooks that answer with the phases
enum { saturated, liquid, just_liquid, vapor, hot, critical, critical_saturated };
static void query(int kind) { fork_eq(false); W& w = gems(); nat lo[] = {275, 275, 275, 275, 700, 648, 643.1}, hi[] = {640, 640, 640, 640, 2000, 690, 646.9}; double T = in("T", lo[kind], hi[kind]), P = in("P", kind >= critical ? 255 : 1, kind >= critical ? 256 : 200), ps = P / 10; Phase f[2] = {phase(0), phase(1)}; bool sat = kind == saturated || kind == critical_saturated;
    nat k0 = kind == liquid ? 0.1 : kind == just_liquid ? 1 - 2e-9 : 1.1, k1 = kind == liquid ? 0.9 : kind == just_liquid ? 1 - 1e-9 : 5; if (!sat && kind != critical) ps = ps * in("k", k0, k1); if (kind == critical) assume(P / 10 > double(20.99) + double(0.17578) * (T - 643)); if (kind == critical) assume(P / 10 < double(21.58) + double(0.38029) * (T - double(645.3)));
    for (auto& x : f) fill(x, T, P); WaterTripleProperties tr; tr.Str = in("Str", 60, 70); tr.Gtr = in("Gtr", -3e5, 0); tr.Htr = in("Htr", -3e5, 0); tr.Utr = in("Utr", -3e5, 0); tr.Atr = in("Atr", -3e5, 0); double rl = in("rl", 0.4, 1), rv = in("rv", 1e-6, 0.3); if (sat) { rl = f[0].d; rv = f[1].d; }
    double cur = 0; Phase* done = nullptr; auto which = [&](double d) -> Phase* { for (auto& x : f) if (equal(x.d, d)) return &x; chk("a density nobody computed", false); return &f[0]; };
    hook = {}; hook.inner = true; hook.ps = [&](double t) { eq("saturation pressure at T", t, T); return ps; }; hook.sat = [&](W* w, double* p, double* l, double* v) { *p = ps; *l = rl; *v = rv; cur = rv; };
    hook.state = [&](W* w, double t, double* d) { cur = *d; w->qq.q0 = 0; w->ac->zb = P / 10 / (w->ac->gascon * T * cur); }; hook.den = [&](W* w, double* d, double* p, double g, double t) { eq("density at T", t, T); if (kind != just_liquid) eq("density at P, MPa", *p, P / 10); *d = cur = f[kind != hot && equal(g, rl) ? 0 : 1].d; };
    hook.thm = [&](W* w, double* d, double t) { chk("the properties are those of the density last worked on", equal(*d, cur)); Phase& x = *which(*d); done = &x; auto& c = w->fct; double R = w->ac->gascon, rt = R * T; eq("R T", w->a1.rt, rt); c.ad = x.A / rt; c.gd = x.g / rt; c.sd = x.S / R; c.ud = x.U / rt; c.hd = x.H / rt; c.cpd = -T * x.tt / R; c.dpdd = x.dpdd; c.dvdt = MPa * x.tp; c.dpdt = c.dvdt * c.dpdd * x.d * x.d; c.cvd = c.cpd - T * c.dvdt * c.dvdt * c.dpdd * x.d * x.d / R; };
    hook.dal = [&](W* w, double* d, double a) { Phase& x = *which(*d); eq("alpha of this phase", a, x.a); return D(x.a, "T"); };
    hook.critical_density = [&](W* w, int s) { if (s) { w->sa.Dliq = f[0].d * 1000; w->sa.Dvap = f[1].d * 1000; } else w->sa.DH2O = f[1].d * 1000; };
    hook.critical = [&](W* w, int s, double th1) { if (s) w->sa.DH2O = th1 < 0 ? w->sa.Dvap : w->sa.Dliq; Phase& x = *which(w->sa.DH2O / 1000); done = &x; auto& c = w->th; c.AE = x.A; c.GE = x.g; c.Entrop = x.S; c.U = x.U; c.H = x.H; c.Cp = -T * x.tt; c.betaw = 1 / (x.d * x.dpdd); c.alphw = x.a; c.Cv = c.Cp - T * MPa * x.tp * MPa * x.tp * x.d * x.d * x.dpdd; };
    double p = sat ? double(0) : P; w.calculateWaterHGKgems(T - double(273.15), p, tr); hook = {}; eq("the pressure handed back, bar", p, P);
    for (int s = 0; s < 2; ++s) output(s ? "vapor: " : "liquid: ", w.thermoPropertiesWaterHGKgems(s), w.propertiesWaterHGKgems(s), f[kind == hot || kind == critical ? 1 : s], T, kind == just_liquid ? ps * 10 : P, tr); cover("end"); }
#define Q(N) CONTRACT(hgk_query_##N, "WaterHGKgems::calculateWaterHGKgems, HGKeqn, HGKsat, calcv2, calcv3, dimHGK, LVSeqn, dimLVS, triple, tpset and the output functions: " #N) { query(N); }
Q(saturated) Q(liquid) Q(just_liquid) Q(vapor) Q(hot) Q(critical) Q(critical_saturated)
CONTRACT(hgk_saturation, "WaterHGKgems::pcorr, corr: every iterate") { fork_eq(false); W& w = gems(); double T = in("T", 275, 640), gl = in("gl", -10, 10), gv, dl = in("dl", 0.4, 1), dv = in("dv", 1e-5, 0.3), p0 = in("p0", 1e-3, 20), rt = w.ac->gascon * T; int k = choose("mismatch", 2); gv = gl - (k ? double(0.9e-4) : in("gap", 1e-3, 0.1)); w.a1.rt = rt; w.unit(1, 1, 1, 4, 0, WaterTripleProperties()); int n = 0; double cur = 0;
    hook = {}; hook.inner = true; hook.ps = [&](double t) { eq("first pressure at T", t, T); return p0; }; hook.dal = [](W*, double*, double) { return double(0); }; hook.state = [](W*, double, double*) {}; hook.den = [&](W* w, double* d, double* p, double g, double t) { if (++n > 2) throw Stop{*p}; eq("density at T", t, T); eq("density at the pressure of the iterate", *p, p0); chk("liquid from a dense guess, vapor from a dilute one", n == 1 ? double(0.3) < g : equal(g, p0 / rt)); *d = cur = n == 1 ? dl : dv; };
    hook.thm = [&](W* w, double* d, double t) { chk("the properties are those of the density last worked on", equal(*d, cur)); w->fct.gd = n == 1 ? gl : gv; w->fct.cvd = w->fct.cpd = w->fct.dpdd = 1; }; double p = 0, l = 0, v = 0; bool again = false; try { w.pcorr(0, T, &p, &l, &v, 4); } catch (Stop& s) { again = true; p = s.d; } hook = {};
    chk("accepted only when the Gibbs energies of the phases agree within 1e-4 RT", again == (k == 0)); eq("Newton step on the difference of the Gibbs energies", (p - p0) * (1 / dv - 1 / dl), (gl - gv) * rt); if (!again) { eq("liquid", l, dl); eq("vapor", v, dv); } cover("end"); }

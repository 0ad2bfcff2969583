// C08: the derivatives returned with the Helmholtz energy of water are its derivatives; the functions are the
// published ones (Wagner & Pruss 2002, IAPWS-95; Haar, Gallagher & Kell 1984).
#include "ts.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzState.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.hpp"
using namespace ThermoFun; typedef WaterHelmholtzState W; typedef W (*EOS)(Temperature, ThermoScalar);
static double lnx(double x) { return std::log(x); }
struct Ctx { double T, D, rT, rP; ThermoScalar rho; };
// any temperature, any density, and any derivatives that density has in the caller's setting
static Ctx ctx() { Ctx c; c.T = in("T", 273, 1300); c.D = in("D", 0.01, 1500); c.rT = in("rT", -5, 5); c.rP = in("rP", 1e-9, 1e-5); c.rho = ThermoScalar(c.D, c.rT, c.rP, 0., {calculated, ""}); fork_eq(false); return c; }
static void derivatives(const W& h, const Ctx& c, int part) {
    double F = h.helmholtz.val; auto T = [](double x) { return D(x, "T"); }; auto R = [](double x) { return D(x, "D"); };
    if (part == 0) { eq("F_T", h.helmholtzT.val, T(F)); eq("F_D", h.helmholtzD.val, R(F)); eq("F_TT", h.helmholtzTT.val, T(h.helmholtzT.val)); eq("F_TD", h.helmholtzTD.val, R(h.helmholtzT.val)); eq("F_DT", h.helmholtzTD.val, T(h.helmholtzD.val)); eq("F_DD", h.helmholtzDD.val, R(h.helmholtzD.val)); }
    if (part == 1) { eq("F_TTT", h.helmholtzTTT.val, T(h.helmholtzTT.val)); eq("F_TTD", h.helmholtzTTD.val, T(h.helmholtzTD.val)); eq("F_TDD", h.helmholtzTDD.val, R(h.helmholtzTD.val)); eq("F_DDD", h.helmholtzDDD.val, R(h.helmholtzDD.val)); }
    // the derivatives carried along, for whatever derivatives the density has
    auto own = [&](const std::string& n, const ThermoScalar& x) { eq(n + ".ddt", x.ddt, D(x.val, "T") + D(x.val, "D") * c.rT); eq(n + ".ddp", x.ddp, D(x.val, "D") * c.rP); };
    if (part == 2) { own("F", h.helmholtz); own("F_T", h.helmholtzT); own("F_D", h.helmholtzD); own("F_TT", h.helmholtzTT); own("F_TD", h.helmholtzTD); own("F_DD", h.helmholtzDD); }
    if (part == 3) { own("F_TTD", h.helmholtzTTD); own("F_TDD", h.helmholtzTDD); own("F_DDD", h.helmholtzDDD); own("F_TTT", h.helmholtzTTT); }
    cover("end"); }
#define EOSC(N, F, K) CONTRACT(N, #F) { Ctx c = ctx(); derivatives(F(c.T, c.rho), c, K); }
EOSC(wp_second, waterHelmholtzStateWagnerPruss, 0) EOSC(wp_third, waterHelmholtzStateWagnerPruss, 1) EOSC(wp_carried, waterHelmholtzStateWagnerPruss, 2) EOSC(wp_carried_third, waterHelmholtzStateWagnerPruss, 3)
EOSC(hgk_second, waterHelmholtzStateHGK, 0) EOSC(hgk_third, waterHelmholtzStateHGK, 1) EOSC(hgk_carried, waterHelmholtzStateHGK, 2) EOSC(hgk_carried_third, waterHelmholtzStateHGK, 3)

// --- the published formulations, transcribed; the first against the check values of the IAPWS release
static const nat w_no[] = {0, -8.32044648201, 6.6832105268, 3.00632, 0.012436, 0.97315, 1.27950, 0.96956, 0.24873}, w_g[] = {1.28728967, 3.53734222, 7.74073708, 9.24437796, 27.5075105}, w_c[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 4, 6, 6, 6, 6, 0, 0, 0}, w_d[] = {0, 1, 1, 1, 2, 2, 3, 4, 1, 1, 1, 2, 2, 3, 4, 4, 5, 7, 9, 10, 11, 13, 15, 1, 2, 2, 2, 3, 4, 4, 4, 5, 6, 6, 7, 9, 9, 9, 9, 9, 10, 10, 12, 3, 4, 4, 5, 14, 3, 6, 6, 6, 3, 3, 3}, w_t[] = {0, -0.5, 0.875, 1, 0.5, 0.75, 0.375, 1, 4, 6, 12, 1, 5, 4, 2, 13, 9, 3, 4, 11, 4, 13, 1, 7, 1, 9, 10, 10, 3, 7, 10, 10, 6, 10, 10, 1, 2, 3, 4, 8, 6, 9, 8, 16, 22, 23, 23, 10, 50, 44, 46, 50, 0, 1, 4},
    w_n[] = {0, 0.12533547935523e-01, 0.78957634722828e+01, -0.87803203303561e+01, 0.31802509345418, -0.26145533859358, -0.78199751687981e-02, 0.88089493102134e-02, -0.66856572307965, 0.20433810950965, -0.66212605039687e-04, -0.19232721156002, -0.25709043003438, 0.16074868486251, -0.40092828925807e-01, 0.39343422603254e-06, -0.75941377088144e-05, 0.56250979351888e-03, -0.15608652257135e-04, 0.11537996422951e-08, 0.36582165144204e-06, -0.13251180074668e-11, -0.62639586912454e-09, -0.10793600908932, 0.17611491008752e-01, 0.22132295167546, -0.40247669763528, 0.58083399985759, 0.49969146990806e-02, -0.31358700712549e-01, -0.74315929710341, 0.47807329915480, 0.20527940895948e-01, -0.13636435110343, 0.14180634400617e-01, 0.83326504880713e-02, -0.29052336009585e-01, 0.38615085574206e-01, -0.20393486513704e-01, -0.16554050063734e-02, 0.19955571979541e-02, 0.15870308324157e-03, -0.16388568342530e-04, 0.43613615723811e-01, 0.34994005463765e-01, -0.76788197844621e-01, 0.22446277332006e-01, -0.62689710414685e-04, -0.55711118565645e-09, -0.19905718354408, 0.31777497330738, -0.11841182425981, -0.31306260323435e+02, 0.31546140237781e+02, -0.25213154341695e+04, -0.14874640856724, 0.31806110878444};
static double wp95(double T, double rho) {   // phi, IAPWS-95 eqs. 5 and 6
    double t = double(647.096) / T, d = rho / double(322), f = lnx(d) + w_no[1] + w_no[2] * t + w_no[3] * lnx(t); for (int i = 4; i < 9; ++i) f += w_no[i] * lnx(1 - std::exp(-w_g[i - 4] * t));
    for (int i = 1; i < 8; ++i) f += w_n[i] * std::pow(d, w_d[i]) * std::pow(t, w_t[i]);
    for (int i = 8; i < 52; ++i) f += w_n[i] * std::pow(d, w_d[i]) * std::pow(t, w_t[i]) * std::exp(-std::pow(d, w_c[i]));
    for (int i = 52; i < 55; ++i) f += w_n[i] * d * d * d * std::pow(t, w_t[i]) * std::exp(-20 * (d - 1) * (d - 1) - (i < 54 ? 150 : 250) * (t - (i < 54 ? 1.21 : 1.25)) * (t - (i < 54 ? 1.21 : 1.25)));
    for (int i = 55; i < 57; ++i) { double q = (d - 1) * (d - 1), th = 1 - t + 0.32 * std::pow(q, double(5) / 3), De = th * th + 0.2 * std::pow(q, 3.5), psi = std::exp(-(i == 55 ? 28 : 32) * q - (i == 55 ? 700 : 800) * (t - 1) * (t - 1)); f += w_n[i] * std::pow(De, i == 55 ? 0.85 : 0.95) * d * psi; }
    return f; }
static const nat h_0[] = {-0.130840393653E+2, -0.857020420940E+2, 0.765192919131E-2, -0.620600116069E+0, -0.106924329402E+2, -0.280671377296E+1, 0.119843634845E+3, -0.823907389256E+2, 0.555864146443E+2, -0.310698122980E+2, 0.136200239305E+2, -0.457116129409E+1, 0.115382128188E+1, -0.214242224683E+0, 0.282800597384E-1, -0.250384152737E-2, 0.132952679669E-3, -0.319277411208E-5}, h_1[] = {0.15383053E+1, -0.81048367E+0, -0.68305748E+1, 0.00000000E+0, 0.86756271E+0}, h_y[] = {0.59402227E-1, -0.28128238E-1, 0.56826674E-3, -0.27987451E-3}, h_3[] = {-0.76221190138079E+1, 0.32661493707555E+2, 0.11305763156821E+2, -0.10015404767712E+1, 0.12830064355028E+3, -0.28371416789846E+3, 0.24256279839182E+3, -0.99357645626725E+2, -0.12275453013171E+4, 0.23077622506234E+4, -0.16352219929859E+4, 0.58436648297764E+3, 0.42365441415641E+4, -0.78027526961828E+4, 0.38855645739589E+4, -0.91225112529381E+3, -0.90143895703666E+4, 0.15196214817734E+5, -0.39616651358508E+4, -0.72027511617558E+3, 0.11147126705990E+5, -0.17412065252210E+5, 0.99918281207782E+3, 0.33504807153854E+4, -0.64752644922631E+4, 0.98323730907847E+4, 0.83877854108422E+3, -0.27919349903103E+4, 0.11112410081192E+4, -0.17287587261807E+4, -0.36233262795423E+3, 0.61139429010144E+3, 0.32968064728562E+2, 0.10411239605066E+3, -0.38225874712590E+2, -0.20307478607599E+3}, h_4[] = {-0.32329494E-2, -0.24139355E-1, 0.79027651E-3, -0.13362857E+1}, h_r[] = {0.10038928E+1, 0.10038928E+1, 0.10038928E+1, 0.48778492E+1}, h_t[] = {0.98876821E+0, 0.98876821E+0, 0.99124013E+0, 0.41713659E+0}; static const int h_k[] = {1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 6, 6, 6, 6, 7, 7, 7, 7, 9, 9, 9, 9, 3, 3, 1, 5}, h_l[] = {1, 2, 4, 6, 1, 2, 4, 6, 1, 2, 4, 6, 1, 2, 4, 6, 1, 2, 4, 6, 1, 2, 4, 6, 1, 2, 4, 6, 1, 2, 4, 6, 0, 3, 3, 3};
static double hgk84(double T, double rho) {   // A/A*, Haar, Gallagher and Kell in the form of Kestin et al. (1984)
    double t = T / double(647.27), d = rho / double(317.763), f = (h_0[0] + h_0[1] * t) * lnx(t); for (int i = 2; i < 18; ++i) f += h_0[i] * std::pow(t, i - 4); for (int i = 0; i < 5; ++i) f += d * h_1[i] * std::pow(t, 1 - i);
    double y = d * (h_y[0] + h_y[1] * lnx(t) + h_y[2] / (t * t * t) + h_y[3] / (t * t * t * t * t)), x = 1 / (1 - y); f += 4.2923415 * t * (lnx(d * x) - double(130) / 3 * x + double(169) / 6 * x * x - 14 * y);
    double z = 1 - std::exp(double(-0.317763) * d); for (int i = 0; i < 36; ++i) f += h_3[i] * std::pow(t, -h_l[i]) * std::pow(z, h_k[i]);
    nat al[] = {34, 40, 30, 1050}, be[] = {20000, 20000, 40000, 25}; for (int i = 0; i < 4; ++i) { double de = (d - h_r[i]) / h_r[i], ta = (t - h_t[i]) / h_t[i]; f += h_4[i] * (i == 1 ? de * de : double(1)) * std::exp(-al[i] * (i == 3 ? de * de * de * de : de * de) - be[i] * ta * ta); }
    return f; }
CONTRACT(wp_function, "waterHelmholtzStateWagnerPruss") { Ctx c = ctx(); eq("the published function", waterHelmholtzStateWagnerPruss(c.T, c.rho).helmholtz.val, 461.51805 * c.T * wp95(c.T, c.D)); }
CONTRACT(hgk_function, "waterHelmholtzStateHGK") { Ctx c = ctx(); eq("the published function", waterHelmholtzStateHGK(c.T, c.rho).helmholtz.val, 69595.89 * hgk84(c.T, c.D)); }
// IAPWS R6-95, table 7: T, density, pressure (MPa), cv (kJ/kg/K), entropy (kJ/kg/K)
static const nat iapws[][5] = {{300, 996.556, 0.0992418352, 4.13018112, 0.393062643}, {300, 1005.308, 20.0022515, 4.06798347, 0.387405401}, {300, 1188.202, 700.004704, 3.46135580, 0.132609616}, {500, 0.435, 0.0999679423, 1.50817541, 7.94488271}, {500, 4.532, 0.999938125, 1.66991025, 6.82502725}, {500, 838.025, 10.0003858, 3.22106219, 2.56690919}, {500, 1084.564, 700.000405, 3.07437693, 2.03237509}, {647, 358, 22.0384756, 6.18315728, 4.32092307}, {900, 0.241, 0.100062559, 1.75890657, 9.16653194}, {900, 52.615, 20.0000690, 1.93510526, 6.59070225}, {900, 870.769, 700.000006, 2.66422350, 4.17223802}};
CONTRACT(wp_check_values, "waterHelmholtzStateWagnerPruss at the states of the IAPWS release") { TPvars(); int i = choose("state", 11); auto& s = iapws[i]; W h = waterHelmholtzStateWagnerPruss(double(s[0]), ThermoScalar(s[1], 0., 0., 0., {calculated, ""})); auto near = [&](const char* n, double a, nat b, nat tol) { le(n, std::fabs(a - b), tol); };
    near("pressure", s[1] * s[1] * h.helmholtzD.val / 1e6, s[2], s[2] * 1e-6 + 1e-7); near("cv", -s[0] * h.helmholtzTT.val / 1e3, s[3], 2e-8); near("entropy", -h.helmholtzT.val / 1e3, s[4], 2e-8); }
CONTRACT(hgk_check_values, "waterHelmholtzStateHGK against the IAPWS formulation") { TPvars(); int i = choose("state", 11); assume(i != 7); auto& s = iapws[i]; W h = waterHelmholtzStateHGK(double(s[0]), ThermoScalar(s[1], 0., 0., 0., {calculated, ""})); auto near = [&](const char* n, double a, nat b, nat tol) { le(n, std::fabs(a - b), tol); };
    near("pressure", s[1] * s[1] * h.helmholtzD.val / 1e6, s[2], s[2] * 5e-3 + (s[1] > 300 ? 0.3 : 0)); near("cv", -s[0] * h.helmholtzTT.val / 1e3, s[3], 0.05); near("entropy", -h.helmholtzT.val / 1e3, s[4], 0.02); }

// C12: the density-based reaction models return consistent derivatives of one function of T and P: their own equation.
#include "hkf.hpp"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/ThermoModelsReaction.h"
typedef ThermoPropertiesReaction TPR;
static std::vector<double> coef(const std::string& n, int k) { std::vector<double> v; for (int i = 0; i < k; ++i) v.push_back(in(n + std::to_string(i), -100, 100)); return v; }
static const nat Rg = 8.31451; static const nat Q = 1e5;
// every property of one reaction against the equilibrium constant of the model's own equation (natural logarithm)
static void consistent(std::function<double(const TPR&)> lnKof, const TPR& r, double lnK, double T, double P) {
    double G = r.reaction_gibbs_energy.val, H = r.reaction_enthalpy.val, S = r.reaction_entropy.val, V = r.reaction_volume.val, Cp = r.reaction_heat_capacity_cp.val, k = r.ln_equilibrium_constant.val;
    eq("the model's own equation", lnKof(r), lnK); eqc("G=-RT lnK", G, -R_CONSTANT * T * k, 1e-8); eqc("log10K=lnK/ln10", r.log_equilibrium_constant.val, k / std::log(double(10)), 1e-8);
    eq("S=-dG/dT", S, -D(G, "T")); eq("V=dG/dP", V, D(G, "P") * Q); eq("G=H-TS", G, H - T * S); eq("Cp=dH/dT", Cp, D(H, "T")); eq("Cp=TdS/dT", Cp, T * D(S, "T"));
    eq("U=H-PV", r.reaction_internal_energy.val, H - P / Q * V); eq("A=U-TS", r.reaction_helmholtz_energy.val, r.reaction_internal_energy.val - T * S);
    auto own = [&](const std::string& n, const ThermoScalar& a) { own_derivatives(n, a, 1); }; own("lnK", r.ln_equilibrium_constant); own("log10K", r.log_equilibrium_constant); own("G", r.reaction_gibbs_energy); own("S", r.reaction_entropy); own("H", r.reaction_enthalpy); own("V", r.reaction_volume);
    eq("Cp.ddt is d/dT given the expansivity's second derivative", D(r.reaction_heat_capacity_cp.val, "rTT"), D(D(H, "T"), "rTT")); cover("end"); }
// which of the two constants the equation gives (they are related by ln 10 with nine digits)
static double natural(const TPR& r) { return r.ln_equilibrium_constant.val; }
static double decimal(const TPR& r) { return r.log_equilibrium_constant.val * std::log(double(10)); }
static PropertiesSolvent state(double& T, double& P) { T = in("T", 280, 1200); P = in("P", 1e5, 1e9); fork_eq(false); return solvent(200, 1300); }
template<class M> static void model(vd ThermoParametersReaction::* field, std::vector<double> c, std::function<double(double, double)> lnK, std::function<double(const TPR&)> of) {
    double T, P; PropertiesSolvent w = state(T, P); Reaction q; q.setSymbol("R"); auto p = q.thermoParameters(); p.*field = c; q.setThermoParameters(p); TPR r = M(q).thermoProperties(T, P, w); consistent(of, r, lnK(T, w.density.val / 1000), T, P); }
CONTRACT(dolejs_manning, "thermoPropertiesDolejsManning2010, ReactionDolejsManning10::thermoProperties") { auto c = coef("a", 5); model<ReactionDolejsManning10>(&ThermoParametersReaction::reaction_DM10_coeff, c, [&](double T, double rho) { return -(c[0] / T + c[1] + c[2] * std::log(T) + c[3] * T + c[4] * std::log(rho)) / R_CONSTANT; }, natural); }
CONTRACT(frantz_marshall, "thermoPropertiesFrantzMarshall, ReactionFrantzMarshall::thermoProperties") { auto c = coef("a", 7); model<ReactionFrantzMarshall>(&ThermoParametersReaction::reaction_FM_coeff, c, [&](double T, double rho) { return std::log(double(10)) * (c[0] + c[1] / T + c[2] / (T * T) + c[3] / (T * T * T)) + (c[4] + c[5] / T + c[6] / (T * T)) * std::log(rho); }, decimal); }
// pK(T,rho) = pK298*298.15/T + (A + B/T)*(pKw(T,rho) - pKw298*298.15/T)/1.0107 with pKw of Marshall and Franck (1981)
static double pKw(double T, double lrho) { double a = -4.098, b = -3245.2, c = 2.2362e5, d = -3.984e7, e = 13.957, f = -1262.3, g = 8.5641e5; return -(a + b / T + c / (T * T) + d / (T * T * T) + (e + f / T + g / (T * T)) * lrho); }
CONTRACT(ryzhenko_bryzgalin, "thermoPropertiesRyzhenkoBryzgalin, ReactionRyzhenkoBryzgalin::thermoProperties") { auto c = coef("a", 3); model<ReactionRyzhenkoBryzgalin>(&ThermoParametersReaction::reaction_RB_coeff, c, [&](double T, double rho) { double l = std::log(double(10)), t = 298.15, r0 = 0.997061; return -l * (c[0] * t / T + (c[1] + c[2] / T) * (pKw(T, std::log(rho) / l) - pKw(t, std::log(r0) / l) * t / T) / 1.0107); }, decimal); }

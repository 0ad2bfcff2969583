// Shared by the contracts about aqueous species: an arbitrary solvent state and an ion in it.
#pragma once
#include "subst.hpp"
#include "ThermoFun/Substances/Solute/SoluteHKFgems.h"
#include "ThermoFun/Substances/Solute/SoluteHKFreaktoro.h"
typedef Reaktoro_::Temperature TT; typedef Reaktoro_::Pressure PP;
inline ThermoScalar quant(double v, double t = 0, double p = 0) { return ThermoScalar(v, t, p, 0, {calculated, ""}); }
// density with all its derivatives (T in K, P in Pa), and the expansivities made from them
inline PropertiesSolvent solvent(nat lo = 300, nat hi = 1300) { PropertiesSolvent w;
    double tt = in("rTT", -1e-4, -1e-6), tp = in("rTP", -1e-9, -1e-11), pp = in("rPP", -1e-15, -1e-17), ttt = in("rTTT", -1e-6, 1e-6); (void)ttt;
    double t = opaque("rT", -3, -0.01, {{"T", "rTT"}, {"P", "rTP"}}), p = opaque("rP", 1e-8, 1e-6, {{"T", "rTP"}, {"P", "rPP"}}), r = opaque("rho", lo, hi, {{"T", "rT"}, {"P", "rP"}});
    w.density = quant(r, t, p); w.densityT = quant(t, tt, tp); w.densityP = quant(p, tp, pp); w.densityTT = quant(tt); w.densityTP = quant(tp); w.densityPP = quant(pp);
    w.Alpha = quant(-t / r, -tt / r + t * t / r / r, -tp / r + t * p / r / r); w.Beta = quant(p / r, tp / r - t * p / r / r, pp / r - p * p / r / r); w.dAldT = quant(w.Alpha.ddt); w.Albe = quant(w.Alpha.val / w.Beta.val); return w; }
// dielectric state: Z with Y = dZ/dT, Q = dZ/dP, X = dY/dT
inline ElectroPropertiesSolvent dielectric() { ElectroPropertiesSolvent e; double x = in("bX", -1e-6, 1e-6), u = in("bU", -1e-13, 1e-13), n = in("bN", -1e-19, 1e-19); double y = opaque("bY", -1e-4, -1e-6, {{"T", "bX"}, {"P", "bU"}}), q = opaque("bQ", 1e-12, 1e-10, {{"T", "bU"}, {"P", "bN"}}), z = opaque("bZ", -0.1, -0.01, {{"T", "bY"}, {"P", "bQ"}});
    e.bornZ = quant(z, y, q); e.bornY = quant(y, x, u); e.bornQ = quant(q, u, n); e.bornX = quant(x); e.bornU = quant(u); e.bornN = quant(n); e.epsilon = quant(-1 / z); return e; }
// effective Born coefficient with its derivatives
inline ElectroPropertiesSubstance born() { ElectroPropertiesSubstance e; double tt = in("wTT", -10, 10), tp = in("wTP", -1e-3, 1e-3), pp = in("wPP", -1e-8, 1e-8); double t = opaque("wT", -100, 100, {{"T", "wTT"}, {"P", "wTP"}}), p = opaque("wP", -1e-3, 1e-3, {{"T", "wTP"}, {"P", "wPP"}}), w = opaque("w", 1e4, 2e5, {{"T", "wT"}, {"P", "wP"}});
    e.w = quant(w, t, p); e.wT = quant(t, tt, tp); e.wP = quant(p, tp, pp); e.wTT = quant(tt); e.wTP = quant(tp); e.wPP = quant(pp); return e; }
inline int charge() { int k = choose("charge", 8); return k < 4 ? k + 1 : 3 - k; }   // 1..4, -1..-4
inline Substance ion(int z, double wref, const std::string& sym = "Na+") { Substance s; s.setSymbol(sym); s.setCharge(z); s.setLowerT(0); s.setLowerP(0); s.setUpperT(1e9); s.setUpperP(1e12); TPS r; r.gibbs_energy = constant("Gr"); r.enthalpy = constant("Hr"); r.entropy = constant("Sr"); s.setThermoReferenceProperties(r);
    ThermoParametersSubstance p; p.HKF_parameters = {in("a1", -1, 1), in("a2", -1e3, 1e3), in("a3", -50, 50), in("a4", -1e5, 1e5), in("c1", -50, 50), in("c2", -1e5, 1e5), wref}; s.setThermoParameters(p); return s; }

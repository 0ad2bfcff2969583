From b3b32f3c72bd8eb6cfd6310ea99e0d0d59fc610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:48 +0000
Subject: [PATCH 01/63] fix: propagate absolute uncertainties in ThermoScalar
 operations

The error of sqrt, pow, log and number/quantity was relative or used the
wrong factor, in-place products could make it negative or undefined, and
products with a zero value dropped it.
---
 ThermoFun/Common/ThermoScalar.hpp | 61 ++++++++++---------------------
 1 file changed, 20 insertions(+), 41 deletions(-)

diff --git a/ThermoFun/Common/ThermoScalar.hpp b/ThermoFun/Common/ThermoScalar.hpp
index a6cc69d..975fa73 100644
--- a/ThermoFun/Common/ThermoScalar.hpp
+++ b/ThermoFun/Common/ThermoScalar.hpp
@@ -141,14 +141,12 @@ public:
     template<typename VR>
     ThermoScalarBase& operator*=(const ThermoScalarBase<VR>& other)
     {
-        const double tmp_err = err / val;
+        const double err1 = err * other.val;
+        const double err2 = val * other.err;
         ddt  = ddt * other.val + val * other.ddt;
         ddp  = ddp * other.val + val * other.ddp;
         val *= other.val;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+        err  = std::sqrt(err1*err1 + err2*err2);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -164,14 +162,12 @@ public:
     {
         const double tmp1 = 1.0/other.val;
         const double tmp2 = tmp1 * tmp1;
-        const double tmp_err = err / val;
+        const double err1 = err * tmp1;
+        const double err2 = val * other.err * tmp2;
         ddt  = (ddt * other.val - val * other.ddt) * tmp2;
         ddp  = (ddp * other.val - val * other.ddp) * tmp2;
         val *= tmp1;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+        err  = std::sqrt(err1*err1 + err2*err2);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -198,26 +194,17 @@ public:
     /// Assign-multiplication of a ThermoScalar instance
     ThermoScalarBase& operator*=(double other)
     {
-        const double tmp_err = err/val*err/val;
         val *= other;
         ddt *= other;
         ddp *= other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
+        err *= std::fabs(other);
         return *this;
     }
 
     /// Assign-division of a ThermoScalar instance
     ThermoScalarBase& operator/=(double other)
     {
-        const double tmp_err = err/val*err/val;
         *this *= 1.0/other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
         return *this;
     }
 
@@ -340,22 +327,16 @@ inline auto operator-(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
 template<typename VL, typename VR>
 inline auto operator*(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& r) -> ThermoScalarBase<double>
 {
-    double a = 0.0; double b = 0.0;
-    if (l.val != 0)
-        a = l.err/l.val*l.err/l.val;
-    if (r.val != 0)
-        b = r.err/r.val*r.err/r.val;
-    return {l.val * r.val, l.val * r.ddt + l.ddt * r.val, l.val * r.ddp + l.ddp * r.val, (l.val * r.val)*std::sqrt(a+b), status(l,r)};
+    const double a = l.err * r.val;
+    const double b = r.err * l.val;
+    return {l.val * r.val, l.val * r.ddt + l.ddt * r.val, l.val * r.ddp + l.ddp * r.val, std::sqrt(a*a + b*b), status(l,r)};
 }
 
 /// Left-multiply a ThermoScalar instance by a scalar
 template<typename V>
 inline auto operator*(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBase<double>
 {
-    if (r.val == 0)
-        return {l * r.val, l * r.ddt, l * r.ddp, 0.0, status(r)};
-    auto err = (l * r.val)*std::sqrt(r.err/r.val*r.err/r.val);
-    return {l * r.val, l * r.ddt, l * r.ddp, err, status(r)};
+    return {l * r.val, l * r.ddt, l * r.ddp, l * r.err, status(r)};
 }
 
 /// Right-multiply a ThermoScalar instance by a scalar
@@ -371,12 +352,9 @@ inline auto operator/(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>&
 {
     const double tmp1 = 1.0/r.val;
     const double tmp2 = tmp1 * tmp1;
-    double a = 0.0; double b = 0.0;
-    if (l.val != 0)
-        a = l.err/l.val*l.err/l.val;
-    if (r.val != 0)
-        b = r.err/r.val*r.err/r.val;
-    return {tmp1 * l.val, tmp2 * (l.ddt * r.val - l.val * r.ddt), tmp2 * (l.ddp * r.val - l.val * r.ddp), (tmp1 * l.val)*std::sqrt(a+b), status(l,r)};
+    const double a = tmp1 * l.err;
+    const double b = tmp2 * l.val * r.err;
+    return {tmp1 * l.val, tmp2 * (l.ddt * r.val - l.val * r.ddt), tmp2 * (l.ddp * r.val - l.val * r.ddp), std::sqrt(a*a + b*b), status(l,r)};
 }
 
 /// Left-divide a ThermoScalar instance by a scalar
@@ -387,7 +365,7 @@ inline auto operator/(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
     const double tmp2 = -l*tmp1*tmp1;
     if (r.val == 0)
         return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, 0.0, status(r)};
-    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, (tmp1 * r.val)*std::sqrt(r.err/r.val*r.err/r.val), status(r)};
+    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, tmp2 * r.err, status(r)};
 }
 
 /// Right-divide a ThermoScalar instance by a scalar
@@ -405,7 +383,7 @@ inline auto sqrt(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 0.5 * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0,0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.5*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -416,7 +394,7 @@ inline auto pow(const ThermoScalarBase<V>& l, double power) -> ThermoScalarBase<
     const double tmp2 = power * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, std::fabs(power)*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -428,7 +406,8 @@ inline auto pow(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& power
     const double tmp = power.val/l.val;
     if (l.val == 0)
         return {powl, powl * (logl * power.ddt + /*tmp * l.ddt*/0.0), powl * (logl * power.ddp + /*tmp * l.ddp*/0.0), 0.0, status(l,power)};
-    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl*(l.err/l.val), status(l,power)};
+    const double err = std::sqrt(powl*tmp*l.err*powl*tmp*l.err + powl*logl*power.err*powl*logl*power.err);
+    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), err, status(l,power)};
 }
 
 /// Return the natural exponential of a ThermoScalar instance
@@ -447,7 +426,7 @@ inline auto log(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 1.0/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.434*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the log10 of a ThermoScalar instance
-- 
2.43.0


From 988a28445b4f2ee97987c6317711534437be8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:48 +0000
Subject: [PATCH 02/63] fix: unary plus of a ThermoScalar does not compile

---
 ThermoFun/Common/ThermoScalar.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ThermoFun/Common/ThermoScalar.hpp b/ThermoFun/Common/ThermoScalar.hpp
index 975fa73..a78405d 100644
--- a/ThermoFun/Common/ThermoScalar.hpp
+++ b/ThermoFun/Common/ThermoScalar.hpp
@@ -272,8 +272,7 @@ inline auto status(const ThermoScalarBase<VL>& l) -> StatusMessage
 template<typename V>
 inline auto operator+(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
 {
-    l.sta = status(l);
-    return l;
+    return {l.val, l.ddt, l.ddp, l.err, status(l)};
 }
 
 /// Add two ThermoScalar instances
-- 
2.43.0


From a465dba97d34f4f295172c456863449b3bdbed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:37 +0000
Subject: [PATCH 03/63] fix: heat capacity integration over several temperature
 intervals

The square root term of Cp was evaluated as a constant (integer 1/2), an
exact upper limit or a gap between intervals selected interval -1, the
coefficients of a longer polynomial leaked into the next interval, fixed
interval bounds contributed a temperature derivative, and fewer phase
transitions than intervals read past the end of the list.
---
 .../Substances/EmpiricalCpIntegration.cpp     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 25d4bec..35f3aa6 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -3,6 +3,7 @@
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
 #include "Substance.h"
+#include <algorithm>
 //#include <iomanip>
 
 namespace ThermoFun
@@ -58,12 +59,16 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
         }
     }
 
+    if (thermo_parameters.temperature_intervals.size() == 0)
+        k = 0;
+
     if (k < 0)
     {
-        if (TK_ <= thermo_parameters.temperature_intervals[0][0])
-            k = 0;
-        if (TK_ > thermo_parameters.temperature_intervals[thermo_parameters.temperature_intervals.size() - 1][1])
-            k = thermo_parameters.temperature_intervals.size() - 1;
+        // below the first interval: the first one, otherwise the last interval that starts below T
+        k = 0;
+        for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
+            if (thermo_parameters.temperature_intervals[i][0] <= TK)
+                k = i;
 
         thfun_logger->warn(" {} {}: The given temperature: {} is not inside the specified interval/s for the Cp calculation.\n"
                            "The temperature is not inside the specified interval for the substance {}.",
@@ -88,14 +93,17 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 ac[6] * (TK * TK * TK * TK) +
                 ac[7] / (TK * TK * TK) +
                 ac[8] / TK +
-                ac[9] * (pow(TK, (1 / 2))) /*+ ac[10]*log(T)*/);
+                ac[9] * (pow(TK, 0.5)) /*+ ac[10]*log(T)*/);
 
     for (unsigned j = 0, ft = 0; j <= k; j++)
     {
         if (j == k)
             TK = TK_.val /* + C_to_K*/; // current T is the end T for phase transition Cp calculations
         else
+        {
             TK = thermo_parameters.temperature_intervals[j][1] /*+ C_to_K*/; // takes the upper bound from the j-th Tinterval
+            TK.ddt = 0.0; // a fixed bound does not change with temperature
+        }
 
         if (!j)
             TrK = substance.referenceT() /*+ C_to_K*/; // if j=0 the first interval should contain the reference T (Tcr)
@@ -119,7 +127,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
             RaiseError(exception)
         }
 
-        if (j && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
+        if (j && ft < thermo_parameters.phase_transition_prop.size() && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
         {                                                               // Adding parameters of phase transition
             if (thermo_parameters.phase_transition_prop[ft].size() > 1) // dS
                 S += thermo_parameters.phase_transition_prop[ft][1];
@@ -133,6 +141,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
         G -= S * (TK - TrK);
 
+        std::fill(ac.begin(), ac.end(), 0.0); // coefficients of another interval do not carry over
         for (unsigned i = 0; i < thermo_parameters.Cp_coeff[j].size(); i++)
         {
             if (i == 16)
-- 
2.43.0


From f348a7e7f4fdcecd840ea12bee8f28faf229339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 04/63] fix: the reference temperature of the entropy-Cp
 integration is a constant

Held as a Temperature it carried a temperature derivative of one and made
every temperature derivative of the result wrong.
---
 ThermoFun/Substances/StandardEntropyCpIntegration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/StandardEntropyCpIntegration.cpp b/ThermoFun/Substances/StandardEntropyCpIntegration.cpp
index 5541c18..ae375c7 100644
--- a/ThermoFun/Substances/StandardEntropyCpIntegration.cpp
+++ b/ThermoFun/Substances/StandardEntropyCpIntegration.cpp
@@ -12,7 +12,7 @@ auto thermoPropertiesEntropyCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::
     //SubstanceClass::type        substance_class        = substance.substanceClass();
 
     auto TK_=TK;
-    Reaktoro_::Temperature TrK = substance.referenceT()/* + C_to_K*/;
+    const double TrK = substance.referenceT()/* + C_to_K*/; // a constant, without temperature derivative
 
     auto S = thermo_properties_PrTr.entropy;
     auto G = thermo_properties_PrTr.gibbs_energy;
-- 
2.43.0


From a75ffbd336f9d26c82b0d1e2456881838025edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:23 +0000
Subject: [PATCH 05/63] fix: Berman (1988) volume terms use the squared
 temperature difference

The quadratic and cubic thermal expansion terms were evaluated with Tst^2
instead of (T-Tst)^2, the cubic enthalpy term had the wrong sign and the
heat capacity did not follow the pressure correction, so G, H, S, V and Cp
were not consistent.
---
 ThermoFun/Substances/Solids/SolidBerman88.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBerman88.cpp b/ThermoFun/Substances/Solids/SolidBerman88.cpp
index b45706c..429cf8f 100644
--- a/ThermoFun/Substances/Solids/SolidBerman88.cpp
+++ b/ThermoFun/Substances/Solids/SolidBerman88.cpp
@@ -13,7 +13,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto Vst = subst.thermoReferenceProperties().volume; // j/bar
     auto T   = TK;
     auto P   = Pbar; // in bar
-    auto Ts2   = Tst*Tst;
+    auto Ts2   = (T-Tst)*(T-Tst);
 
     auto vc = subst.thermoParameters().volume_coeff;
 
@@ -38,8 +38,9 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
         tps.entropy      += ( - vc[0]*VP - vc[1]*VP*2.*(T-Tst) - vc[2]*VP*3*Ts2 );
         tps.gibbs_energy += ( vc[0]*(T-Tst)*VP + vc[1]*VP*Ts2 + vc[2]*VP*Ts2*(T-Tst) + vc[3]*VP*(P-Pst) / 2.
                             + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) + vc[2]*VP*Ts2*(2.*T + Tst)
+        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) - vc[2]*VP*Ts2*(2.*T + Tst)
                             + vc[3]*VP*(P-Pst) / 2. + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
+        tps.heat_capacity_cp += ( - T*VP*(vc[1]*2. + vc[2]*6.*(T-Tst)) );
         tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
         tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
     }
-- 
2.43.0


From 6f7602f13df0a104d9ec56323be52dc39f7116f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:23 +0000
Subject: [PATCH 06/63] fix: volume of the Holland-Powell Landau model is the
 pressure derivative of its Gibbs energy

The pressure dependence of the integrated volume term was left out and the
order parameter terms were not the derivative of the excess Gibbs energy.
---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index cd6790f..bac269c 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -45,7 +45,7 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     if( TK<Tcr )
     {
         Qq = pow( 1.- TK/Tcr, 0.25 );
-        dQq = - TK*Vmax/(4.*pow((1.+TK/Tcr),0.75)*pow(Tcr,2.)*Smax);
+        dQq = - TK*Vmax/(4.*pow((1.-TK/Tcr),0.75)*pow(Tcr,2.)*Smax);
     }
     else
     {
@@ -62,6 +62,9 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
                      + (v_bis)*(Pbar/1000)*(1.5e-4)/(1.-(1.5e-4)*(TK-TrK)) * pow((1.+4.*(Pbar/1000)/kT),-0.25) ) * (1000.);
     auto smq = Smax * Tcr0 *( pow(Q298,2.) - pow(Q298,6.)/3. );
 
+    // volume of the ivdp term at P
+    auto v_P = v_bis * pow((1.+4.*(Pbar/1000)/kT),-0.25);
+
     // increment thermodynamic properties
     if (Qq == 0. && dQq == 0.)
     {
@@ -69,15 +72,13 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq_,2.) + Tcr*pow(Qq_,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq_,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq_,2.) - pow(Qq_,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq_*dQq_ - Smax*pow(Qq_,2.)*Vmax/Smax + Tcr*pow(Qq_,2.)*dQq_
-                              + Vmax/Smax*pow(Qq_,3.)/3. );  // in J/bar
+        tps.volume        = ( v_P - Vmax*(pow(Qq_,2.) - pow(Qq_,6.)/3.) );  // in J/bar
     } else
     {
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq,2.) + Tcr*pow(Qq,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq*dQq - Smax*pow(Qq,2.)*Vmax/Smax + Tcr*pow(Qq,2.)*dQq
-                              + Vmax/Smax*pow(Qq,3.)/3. );  // in J/bar
+        tps.volume        = ( v_P - Vmax*(pow(Qq,2.) - pow(Qq,6.)/3.) );  // in J/bar
     }
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
-- 
2.43.0


From bd6baada07145e4dddca5d4fadddd2159caa28e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:23 +0000
Subject: [PATCH 07/63] fix: Birch-Murnaghan (Gottschalk) entropy sign, volume
 and second bulk modulus derivative

The entropy increment is -d(int V dP)/dT, the returned volume was the
model volume plus the reference volume, a given kpp was replaced by zero
in the temperature differences, nine coefficients are read, and reference
T and P no longer carry derivatives.
---
 .../Substances/Solids/SolidBMGottschalk.cpp    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 09364f5..a2cb68a 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -11,7 +11,7 @@ namespace ThermoFun {
 // Written in fortran by M.Gottschalk, GFZ Potsdam
 // Translated to C/C++ by D.Kulik, 08 April 2003
 // calculate the volume integral
-auto BM_IntVol(Reaktoro_::Pressure P, Reaktoro_::Pressure Pref, Reaktoro_::ThermoScalar vt, Reaktoro_::ThermoScalar  vpt,
+auto BM_IntVol(Reaktoro_::Pressure P, double Pref, Reaktoro_::ThermoScalar vt, Reaktoro_::ThermoScalar  vpt,
                  Reaktoro_::ThermoScalar  kt0, Reaktoro_::ThermoScalar  kp, Reaktoro_::ThermoScalar  kpp) -> Reaktoro_::ThermoScalar
 {
     auto vt23 = pow( vt/vpt, 2./3. );
@@ -62,7 +62,7 @@ auto BM_Volume( Reaktoro_::Pressure P, Reaktoro_::ThermoScalar vt, Reaktoro_::Th
 //------------------------------------------------------------------------
 // calculate the integral vdP using the Birch-Murnaghan EOS
 // this function will be incorporated into GEM-Selektor v.2.1.0 code
-auto BirchMurnaghan( double Pref, Reaktoro_::Pressure P, Reaktoro_::Temperature Tref, Reaktoro_::Temperature T, Reaktoro_::ThermoScalar v0,
+auto BirchMurnaghan( double Pref, Reaktoro_::Pressure P, double Tref, Reaktoro_::Temperature T, Reaktoro_::ThermoScalar v0,
           std::vector<double> BMConst, Reaktoro_::ThermoScalar &vv, Reaktoro_::ThermoScalar &alpha, Reaktoro_::ThermoScalar &beta,
           Reaktoro_::ThermoScalar &dG, Reaktoro_::ThermoScalar &dH, Reaktoro_::ThermoScalar &dS ) -> void
 {
@@ -105,6 +105,11 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
       kppTplus = -((35./9.+(3.-kp)*(4.-kp))/kt0Tplus);
       kppTminus = -((35./9.+(3.-kp)*(4.-kp))/kt0Tminus);
     }
+    else
+    {
+      kppTplus = kpp;
+      kppTminus = kpp;
+    }
 
     // calculate volume at T and Pref and its T increments
     vt = v0* exp( a1*(T-Tref)
@@ -137,7 +142,7 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     // calculate d(vdP)/dT (dS)
     dGTplus = BM_IntVol(P,Pref,vtTplus,vTplus,kt0Tplus,kp,kppTplus);
     dGTminus = BM_IntVol(P,Pref,vtTminus,vTminus,kt0Tminus,kp,kppTminus);
-    dS = (dGTplus-dGTminus)/(2.*Tincr);
+    dS = -(dGTplus-dGTminus)/(2.*Tincr);
 
     // calculate dH
     dH = dG + T*dS;
@@ -158,20 +163,19 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
     auto T_Tst = T -Tst;
 
     auto BMc = subst.thermoParameters().volume_BirchM_coeff;
-    if (BMc.size() < 8)
+    if (BMc.size() < 9)
     {
         errorModelParameters("Birch M.", "BMGottschalk", __LINE__, __FILE__);
     }
 
-    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 8 )
+    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 9 )
     {
        Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, aC, aE;
 
        BirchMurnaghan( Pst, P, Tst, T, Vst*10., BMc,
                        VV0, aC, aE, GG0, HH0, SS0 );
        // increments to V, G, H, S
-       tps.volume += Vst+VV0/10.;    // fixed by KD on 22.11.04
-           // aW.twp->V += VV0/10.;
+       tps.volume += VV0/10.;
        tps.entropy      += SS0;
        tps.gibbs_energy += GG0;
        tps.enthalpy     += HH0;
-- 
2.43.0


From bca2192476b0ee987a6152c4cccf7357a0e21e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:48 +0000
Subject: [PATCH 08/63] fix: Holland-Powell Landau heat capacity includes the
 temperature derivative of the volume integral

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index bac269c..e22a1ed 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -62,6 +62,12 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
                      + (v_bis)*(Pbar/1000)*(1.5e-4)/(1.-(1.5e-4)*(TK-TrK)) * pow((1.+4.*(Pbar/1000)/kT),-0.25) ) * (1000.);
     auto smq = Smax * Tcr0 *( pow(Q298,2.) - pow(Q298,6.)/3. );
 
+    // temperature derivative of the idvdtdp term
+    auto d2vdt2dp = ( (5.*(Vmax*pow(Q298,2.))*a0*kT/3.)*pow(TK,-1.5) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
+                      - (2.*(Vmax*pow(Q298,2.))*k298/3.)*(1.5e-4)*(a0-10.*a0*pow(TK,-0.5)) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
+                      + 2.*(Vmax*pow(Q298,2.))*(a0-10.*a0*pow(TK,-0.5))*(Pbar/1000)*(1.5e-4)/(1.-(1.5e-4)*(TK-TrK)) * pow((1.+4.*(Pbar/1000)/kT),-0.25)
+                      - (v_bis)*pow((Pbar/1000),2.)*pow((1.5e-4),2.)/(pow((1.-(1.5e-4)*(TK-TrK)),3.)*k298) * pow((1.+4.*(Pbar/1000)/kT),-1.25) ) * (1000.);
+
     // volume of the ivdp term at P
     auto v_P = v_bis * pow((1.+4.*(Pbar/1000)/kT),-0.25);
 
@@ -80,6 +86,7 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
         tps.volume        = ( v_P - Vmax*(pow(Qq,2.) - pow(Qq,6.)/3.) );  // in J/bar
     }
+    tps.heat_capacity_cp -= TK*d2vdt2dp;
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
 
-- 
2.43.0


From 022d91e4b7ee1940bd52389cbc93aacaeefbd117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 09/63] fix: derivatives of the solvent g function above 1
 g/cm3 (HKF, gems)

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 1cc3a3e..e24b184 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -193,12 +193,13 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
 //        return g;
 
     const auto pw = fabs(1.0e0 - D.val); // insert Sveta 19/02/2000
+    const double dpw = (D.val > 1.0) ? 1.0 : -1.0; // derivative of pw with respect to D
 
     a = C[0] + C[1]*TC + C[2]*pow(TC,2.);
     b = C[3] + C[4]*TC + C[5]*pow(TC,2.);
     g.g = a * pow(pw, b.val);
 
-    dgdD = - a*b*pow(pw,(b.val - 1.0e0));
+    dgdD = dpw * a*b*pow(pw,(b.val - 1.0e0));
     // dgdD2 = a * b * (b - 1.0e0) * pow((1.0e0 - D),(b - 2.0e0));
 
     dadT = C[1] + 2.0*C[2]*TC;
@@ -211,11 +212,11 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
     dDdTT = - D * (daldT - pow(alpha,2.));
         // Db = pow((1.0 - D),b);  Fixed by DAK 01.11.00
     Db = pow( pw , b.val );
-    dDbdT = -b * pow(pw,(b.val - 1.0)) * dDdT + log(pw) * Db  * dbdT;
+    dDbdT = dpw * b * pow(pw,(b.val - 1.0)) * dDdT + log(pw) * Db  * dbdT;
 
 
-    dDbdTT = -(b * pow(pw,(b.val-1.0)) * dDdTT + pow(pw,(b.val - 1.0)) * dDdT * dbdT
-                + b * dDdT * ( -(b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
+    dDbdTT = dpw * (b * pow(pw,(b.val-1.0)) * dDdTT + pow(pw,(b.val - 1.0)) * dDdT * dbdT
+                + b * dDdT * ( dpw * (b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
                 + log(pw) * pow(pw,(b.val - 1.0)) * dbdT))
                 + log(pw) * pow(pw,b.val) * dbdTT
                 - pow(pw,b.val) * dbdT * dDdT / (1.0 - D)
-- 
2.43.0


From 7eddc5540a8c8ef84c91dd6e5bc69ae63f431bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 10/63] fix: internal and Helmholtz energies of HKF species mix
 calories with cubic centimetres times bar

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 10 ++++------
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index e24b184..c3c9d21 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -110,19 +110,17 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
     // GZterm = W * (-Z - 1.0e0);
 
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
-
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01; // J/bar
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 52f9f03..81489e8 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -114,19 +114,17 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto Cp = c1 + c2/pow(TK - theta, 2) - (2*TK/pow(TK - theta, 3))*(a3*(Pbar - Pr)
         + a4*log((psi + Pbar)/(psi + Pr))) + w*TK*X + 2*TK*Y*wT + TK*(Z + 1)*wTT;
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
-
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01/**cal_to_J/bar_to_Pa*/;
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
-- 
2.43.0


From 9cffe49b639c948b47958b51982cf16cd612ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 11/63] fix: reaction Cv, U and A from components are sums, lnK
 carries its temperature derivative

---
 ThermoFun/ThermoEngine.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 57ebee0..1c51b62 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -816,11 +816,11 @@ struct ThermoEngine::Impl
             tpr.reaction_enthalpy           += tps.enthalpy*coeff;
             tpr.reaction_entropy            += tps.entropy*coeff;
             tpr.reaction_volume             += tps.volume*coeff;
-            tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
+            tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / (-R_CONSTANT * Reaktoro_::Temperature(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
-            tpr.reaction_heat_capacity_cv = tps.heat_capacity_cv*coeff;
-            tpr.reaction_internal_energy  = tps.internal_energy*coeff;
-            tpr.reaction_helmholtz_energy = tps.helmholtz_energy*coeff;
+            tpr.reaction_heat_capacity_cv   += tps.heat_capacity_cv*coeff;
+            tpr.reaction_internal_energy    += tps.internal_energy*coeff;
+            tpr.reaction_helmholtz_energy   += tps.helmholtz_energy*coeff;
 
             setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-- 
2.43.0


From 715bcf0ab81dfd1ece3be1c755a8d3aeb365a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 12/63] fix: the gas pressure correction preference is restored
 after a reaction, and a dependent substance without a reaction is reported

---
 ThermoFun/ThermoEngine.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 1c51b62..d4291fa 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -46,6 +46,18 @@ struct WorkPreferences
     bool isReacFromReactants = false;
 };
 
+/// Sets a value for the duration of a scope and restores the previous one on every way out of it
+struct ScopedFlag
+{
+    bool& flag;
+    const bool previous;
+
+    ScopedFlag(bool& flag, bool value) : flag(flag), previous(flag) { flag = value; }
+    ~ScopedFlag() { flag = previous; }
+    ScopedFlag(const ScopedFlag&) = delete;
+    ScopedFlag& operator=(const ScopedFlag&) = delete;
+};
+
 using ThermoPropertiesSubstanceFunction =
     std::function<ThermoPropertiesSubstance(double, double, double &, std::string)>;
 
@@ -588,11 +600,11 @@ struct ThermoEngine::Impl
         Reaction reaction;
         std::map<std::string, double> reactants;
 
-        // if reaction involves gases we switch on the P correction to the thermo props
-        preferences.apply_pressure_correction_to_gas_props = true;
-
         if (!reactionSymbol.empty())
         {
+            // if reaction involves gases we switch on the P correction to the thermo props
+            ScopedFlag pressureCorrection(preferences.apply_pressure_correction_to_gas_props, true);
+
             reaction = database.getReaction(reactionSymbol);
 
             tpr = thermo_properties_reaction_fn(T, P, P, reactionSymbol); /*thermoPropertiesReaction(T, P, reactionSymbol);*/
@@ -635,13 +647,13 @@ struct ThermoEngine::Impl
         }
         else
         {
+            // no reaction to calculate the properties of this dependent substance from
+            if (subst.thermoCalculationType() == SubstanceThermoCalculationType::type::REACDC)
+                errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
             subst.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON);
             return thermoPropertiesSubstance(T, P, subst);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
-            errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
-
         // pressure correction on rdc assuming constant molar volume
         if ((subst.method_P() == MethodCorrP_Thrift::type::CPM_CON) &&
             (reaction.method_P()== MethodCorrP_Thrift::CPM_OFF || !reaction.method_P()))
@@ -793,7 +805,7 @@ struct ThermoEngine::Impl
         tpr.reaction_internal_energy = 0.0;
         tpr.reaction_helmholtz_energy = 0.0;
 
-        preferences.apply_pressure_correction_to_gas_props = true;
+        ScopedFlag pressureCorrection(preferences.apply_pressure_correction_to_gas_props, true);
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
@@ -831,7 +843,6 @@ struct ThermoEngine::Impl
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
         return tpr;
     }
 };
-- 
2.43.0


From 1cbbca4082ad23de88e8e94bbfdd1fe7e45d3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 13/63] fix: cached results are keyed by value, return the
 pressure they hand back, respect their bound, and are dropped when
 preferences, conventions or data change

---
 ThermoFun/OptimizationUtils.h | 60 +++++++++++++++---------
 ThermoFun/ThermoEngine.cpp    | 87 ++++++++++++++++++++++++++---------
 2 files changed, 103 insertions(+), 44 deletions(-)

diff --git a/ThermoFun/OptimizationUtils.h b/ThermoFun/OptimizationUtils.h
index b6cea7a..509a312 100644
--- a/ThermoFun/OptimizationUtils.h
+++ b/ThermoFun/OptimizationUtils.h
@@ -8,16 +8,26 @@
 
 namespace ThermoFun {
 
+/// The arguments of a call as values: a reference among them is replaced by what it refers to
+template<typename... Args>
+using ArgumentValues = std::tuple<std::decay_t<Args>...>;
+
+/// Keeps the result of each call, together with the values the call left in its reference arguments
 template <typename Ret, typename... Args>
 auto memoize(std::function<Ret(Args...)> f) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
+    using Key = ArgumentValues<Args...>;
+    auto cache = std::make_shared<std::map<Key, std::pair<Ret, Key>>>();
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...);
-        if(cache->find(t) == cache->end())
-            (*cache)[t] = f(args...);
-        return (*cache)[t];
+        const Key t(args...);
+        auto it = cache->find(t);
+        if(it == cache->end()) {
+            Ret result = f(args...);
+            it = cache->emplace(t, std::make_pair(result, Key(args...))).first;
+        }
+        std::tie(args...) = it->second.second;
+        return it->second.first;
     };
 }
 
@@ -49,36 +59,40 @@ auto dereference(const std::shared_ptr<std::function<Ret(Args...)>>& f) -> std::
 
 
 
+/// As memoize, but keeps the last max_cache_size results only
 template <typename Ret, typename... Args>
 auto memoizeN(std::function<Ret(Args...)> f, size_t max_cache_size) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
-    std::list<std::tuple<Args...>> usage_order; // List to track the order of usage for LRU cache management
+    using Key = ArgumentValues<Args...>;
+    auto cache = std::make_shared<std::map<Key, std::pair<Ret, Key>>>();
+    auto usage_order = std::make_shared<std::list<Key>>(); // keys in the cache, the most recent first
 
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...); // Create a tuple key from the arguments
+        const Key t(args...); // Create a tuple key from the arguments
 
-        // Check cache size and evict the least recently used item if necessary before adding
-        if (cache->size() >= max_cache_size) {
-            if (!usage_order.empty()) {
-                std::tuple<Args...> lru_t = usage_order.back(); // Get the least recently used key
-                usage_order.pop_back();                           // Remove from usage order
-                cache->erase(lru_t);                             // Remove from cache
+        // Check if result is already in cache
+        auto it = cache->find(t);
+        if (it == cache->end()) { // t not found; compute the result
+            Ret result = f(args...);
+            it = cache->find(t); // the computation may have used this cache
+            if (it == cache->end()) {
+                // Evict the oldest results if necessary before adding
+                while (!usage_order->empty() && cache->size() >= max_cache_size) {
+                    cache->erase(usage_order->back());
+                    usage_order->pop_back();
+                }
+                if (max_cache_size == 0)
+                    return result;
+                it = cache->emplace(t, std::make_pair(result, Key(args...))).first; // Cache the result
+                usage_order->push_front(t); // Track the usage order
             }
         }
 
-        // Check if result is already in cache
-        if (cache->find(t) == cache->end()) { // t not found; compute the result
-            (*cache)[t] = f(args...); // Cache the result
-            usage_order.push_front(t); // Track the usage order
-        }
-        
-        return (*cache)[t]; // Return the cached result
+        std::tie(args...) = it->second.second;
+        return it->second.first; // Return the cached result
     };
 }
 
-
-
 } // namespace ThermoFun
 
diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index d4291fa..86cc71b 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -100,13 +100,48 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    /// The functions of the copy refer to the copy, and it has its own caches
+    Impl(const Impl &other)
+        : database(other.database), preferences(other.preferences), prefs(other.prefs), conventions(other.conventions)
+    {
+        set_fn();
+    }
+
+    /// What the results depend on besides the database and the arguments of a query
+    using CacheState = std::tuple<bool, size_t, std::string, bool, std::string, std::string>;
+
+    /// The state the cached results were calculated in
+    CacheState cache_state;
+
+    auto currentState() const -> CacheState
+    {
+        return CacheState(preferences.enable_memoize, preferences.max_cache_size, preferences.solvent_symbol,
+                          preferences.fallback_to_reference_properties, conventions.apparent_properties, conventions.water_properties);
+    }
+
+    /// Discards the cached results if they were calculated with other preferences or conventions
+    auto upToDate() -> Impl&
+    {
+        if (cache_state != currentState())
+            set_fn();
+        return *this;
+    }
+
     void set_fn()
     {
-        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
-            auto x = P_;
+        cache_state = currentState();
+
+        // substances and reactions depend on whether the properties of gases are corrected for pressure
+        std::function<ThermoPropertiesSubstance(bool, double, double &, std::string)> substance_fn =
+            [this](bool, double T, double &P, std::string symbol) {
             return thermoPropertiesSubstance(T, P, symbol);
         };
 
+        std::function<ThermoPropertiesReaction(bool, double, double &, std::string)> reaction_fn =
+            [this](bool, double T, double &P, std::string symbol) {
+            return thermoPropertiesReaction(T, P, symbol);
+        };
+
         electro_properties_solvent_fn = [=, this](double T, double P_, double &P, std::string symbol, int state) {
             auto x = P_;
             return electroPropertiesSolvent(T, P, symbol, state);
@@ -117,25 +152,28 @@ struct ThermoEngine::Impl
             return propertiesSolvent(T, P, symbol, state);
         };
 
-        thermo_properties_reaction_fn = [=, this](double T, double P_, double &P, std::string symbol) {
-            auto x = P_;
-            return thermoPropertiesReaction(T, P, symbol);
-        };
-
         if( preferences.enable_memoize ) {
             if( preferences.max_cache_size==0 ) {
-                thermo_properties_substance_fn = memoize(thermo_properties_substance_fn);
+                substance_fn = memoize(substance_fn);
                 electro_properties_solvent_fn = memoize(electro_properties_solvent_fn);
                 properties_solvent_fn = memoize(properties_solvent_fn);
-                thermo_properties_reaction_fn = memoize(thermo_properties_reaction_fn);
+                reaction_fn = memoize(reaction_fn);
             }
             else {
-                thermo_properties_substance_fn = memoizeN(thermo_properties_substance_fn, preferences.max_cache_size);
+                substance_fn = memoizeN(substance_fn, preferences.max_cache_size);
                 electro_properties_solvent_fn = memoizeN(electro_properties_solvent_fn,preferences.max_cache_size);
                 properties_solvent_fn = memoizeN(properties_solvent_fn,preferences.max_cache_size);
-                thermo_properties_reaction_fn = memoizeN(thermo_properties_reaction_fn,preferences.max_cache_size);
+                reaction_fn = memoizeN(reaction_fn, preferences.max_cache_size);
             }
         }
+
+        thermo_properties_substance_fn = [this, substance_fn](double T, double, double &P, std::string symbol) {
+            return substance_fn(preferences.apply_pressure_correction_to_gas_props, T, P, symbol);
+        };
+
+        thermo_properties_reaction_fn = [this, reaction_fn](double T, double, double &P, std::string symbol) {
+            return reaction_fn(preferences.apply_pressure_correction_to_gas_props, T, P, symbol);
+        };
     }
 
     auto toSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat) const -> void
@@ -866,53 +904,53 @@ ThermoEngine::ThermoEngine(const ThermoEngine &other)
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
-    return pimpl->thermo_properties_substance_fn(T, P, P, substance);
+    return pimpl->upToDate().thermo_properties_substance_fn(T, P, P, substance);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
 {
-    return pimpl->electro_properties_solvent_fn(T, P, P, solvent, state);
+    return pimpl->upToDate().electro_properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, std::string solvent, int state) const -> PropertiesSolvent
 {
-    return pimpl->properties_solvent_fn(T, P, P, solvent, state);
+    return pimpl->upToDate().properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, const Substance& substance) const -> ThermoPropertiesSubstance
 {
-    return pimpl->thermoPropertiesSubstance(T, P, substance);
+    return pimpl->upToDate().thermoPropertiesSubstance(T, P, substance);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> ElectroPropertiesSolvent
 {
-    return pimpl->electroPropertiesSolvent(T, P, solvent, state);
+    return pimpl->upToDate().electroPropertiesSolvent(T, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> PropertiesSolvent
 {
-    return pimpl->propertiesSolvent(T, P, solvent, state);
+    return pimpl->upToDate().propertiesSolvent(T, P, solvent, state);
 }
 
 // Reaction
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, std::string reaction) const -> ThermoPropertiesReaction
 {
-    return pimpl->thermo_properties_reaction_fn(T, P, P, reaction);
+    return pimpl->upToDate().thermo_properties_reaction_fn(T, P, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, std::string symbol) const -> ThermoPropertiesReaction
 {
-    return pimpl->thermoPropertiesReactionFromReactants(T, P, symbol);
+    return pimpl->upToDate().thermoPropertiesReactionFromReactants(T, P, symbol);
 }
 
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
-    return pimpl->thermoPropertiesReaction(T, P, reaction);
+    return pimpl->upToDate().thermoPropertiesReaction(T, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
-    return pimpl->thermoPropertiesReactionFromReactants(T, P, reaction);
+    return pimpl->upToDate().thermoPropertiesReactionFromReactants(T, P, reaction);
 }
 
 auto ThermoEngine::setSolventSymbol(const std::string solvent_symbol) -> void
@@ -920,6 +958,11 @@ auto ThermoEngine::setSolventSymbol(const std::string solvent_symbol) -> void
     pimpl->preferences.solvent_symbol = solvent_symbol;
 }
 
+auto ThermoEngine::setPreferences(const EnginePreferences preferences) -> void
+{
+    pimpl->preferences = preferences;
+}
+
 auto ThermoEngine::solventSymbol() -> std::string&
 {
     return pimpl->preferences.solvent_symbol;
@@ -940,11 +983,13 @@ auto ThermoEngine::database() const -> const Database &
 
 auto ThermoEngine::appendData(std::string filename) -> void
 {
+    pimpl->set_fn(); // the cached results belong to the previous data
     pimpl->database.appendData(filename);
 }
 
 auto ThermoEngine::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
+    pimpl->set_fn(); // the cached results belong to the previous data
     pimpl->database.appendData(jsonRecords, _label);
 }
 
-- 
2.43.0


From 9e5108d42fdb49ef09cababee83abd5c5e702152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 14/63] fix: keep fractional powers in the dimension of a unit

The dimension of a unit such as bar^0.5 was accumulated in integers, so the
fractional power was truncated and the unit passed as dimensionless.
---
 ThermoFun/Common/Units.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 373dfcd..f08d55c 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -478,13 +478,13 @@ double factor(const DerivedUnit& derivedUnit)
     return factor(derivedUnit, 0);
 }
 
-void removeZero(map<string, int>& res)
+void removeZero(map<string, double>& res)
 {
     for(auto iter = res.begin(); iter != res.end();)
         if(iter->second == 0) res.erase(iter++); else ++iter;
 }
 
-void dimension(const string& symbol, int multpower, map<string, int>& res)
+void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
     if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
     checkDerivedUnit(symbol);
@@ -494,24 +494,24 @@ void dimension(const string& symbol, int multpower, map<string, int>& res)
         dimension(unit.symbol, unit.power * multpower, res);
 }
 
-void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, int>& res)
+void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, double>& res)
 {
     if(pos == derivedUnit.size()) return;
     dimension(derivedUnit[pos].symbol, derivedUnit[pos].power, res);
     dimension(derivedUnit, pos + 1, res);
 }
 
-map<string, int> dimension(const string& symbol)
+map<string, double> dimension(const string& symbol)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(symbol, 1, res);
     removeZero(res);
     return res;
 }
 
-map<string, int> dimension(const DerivedUnit& derivedUnit)
+map<string, double> dimension(const DerivedUnit& derivedUnit)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(derivedUnit, 0, res);
     removeZero(res);
     return res;
-- 
2.43.0


From 192a968ca5426fbc891a29f3cb057397dcac7305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 15/63] fix: constant volume correction of a reaction keeps
 lnK, log10K and G consistent

The correction left ln K at its value at the reference pressure, moved log K by
the reference volume instead of the volume used for the energies, and did not
carry the derivatives of the correction.
---
 ThermoFun/ThermoEngine.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 86cc71b..0c39854 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -790,15 +790,16 @@ struct ThermoEngine::Impl
             case MethodCorrP_Thrift::type::CPM_CON:
             {
                 auto Pref = pref.workReaction.referenceP() / 1e5;
-                auto P_ = P / 1e5;
+                auto TK = Reaktoro_::Temperature(T);
+                auto P_ = Reaktoro_::Pressure(P) / 1e5;
                 auto VP = tpr.reaction_volume * (P_ - Pref);
                 tpr.reaction_gibbs_energy += VP;
                 tpr.reaction_enthalpy += VP;
-                auto Vref = pref.workReaction.thermoReferenceProperties().reaction_volume;
-                tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T) / lg_to_ln;
-                tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
+                tpr.ln_equilibrium_constant -= VP / (R_CONSTANT * TK);
+                tpr.log_equilibrium_constant -= VP / (R_CONSTANT * TK) / lg_to_ln;
+                tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / TK;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
-                tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
+                tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - TK * tpr.reaction_entropy;
 
                 //dU/dT=C (v)
 
-- 
2.43.0


From 532c479db2e5fc53d457130941a6ff104db18a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 16/63] fix: the Dolejs-Manning density model evaluates its own
 equation

The model class evaluated the Frantz-Marshall equation with the coefficients of
that model. The function itself left log K unset, and its first coefficient was
read in kJ/mol while the equation is in J/mol.
---
 ThermoFun/Common/ParseJsonToData.cpp      | 2 +-
 ThermoFun/Reactions/DolejsManning2010.cpp | 3 ++-
 ThermoFun/ThermoModelsReaction.cpp        | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 2be4ad0..620e799 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -404,7 +404,7 @@ auto thermoParamReac(const json &j, ThermoParametersReaction &pr) -> void
     read_values_units(j, "dr_volume_fpt_coeffs", pr.reaction_V_fT_coeff, {"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"});
     read_values_units(j, "dr_ryzhenko_coeffs", pr.reaction_RB_coeff, {"1", "1", "1"});
     read_values_units(j, "dr_marshall_franck_coeffs", pr.reaction_FM_coeff, {"1", "K", "K^2", "K^3", "1", "K", "K^2"});
-    read_values_units(j, "dr_dolejs_manning10_coeffs", pr.reaction_DM10_coeff, {"kJ/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"});
+    read_values_units(j, "dr_dolejs_manning10_coeffs", pr.reaction_DM10_coeff, {"J/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"});
 }
 
 auto thermoRefPropSubst(const json &j) -> ThermoPropertiesSubstance
diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index aa20847..49ff89e 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -38,7 +38,8 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
     // if (std::fabs((-R_CONSTANT*TK*lnK) - dGr) > 0.1)
            // Error( GetName(),"DM denisty model: dGr and lnK not consistent!");
 
-    tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.ln_equilibrium_constant    = lnK;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/ThermoModelsReaction.cpp b/ThermoFun/ThermoModelsReaction.cpp
index ad59aa4..a8715b9 100644
--- a/ThermoFun/ThermoModelsReaction.cpp
+++ b/ThermoFun/ThermoModelsReaction.cpp
@@ -35,7 +35,7 @@ auto ReactionDolejsManning10::thermoProperties(double T, double P, PropertiesSol
     auto t = Reaktoro_::Temperature(T);
     auto p = Reaktoro_::Pressure(P); p /= bar_to_Pa;
 
-    return thermoPropertiesFrantzMarshall(t, p, pimpl->reaction, wp);
+    return thermoPropertiesDolejsManning2010(t, p, pimpl->reaction, wp);
 }
 
 //=======================================================================================================
-- 
2.43.0


From 3eecf49fb0521b6739e20eda4414ab69a1ad7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 17/63] fix: the Frantz-Marshall density model returns log K

---
 ThermoFun/Reactions/FrantzMarshall.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index f5bbce7..c73ed1f 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -47,6 +47,7 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dAr  = dUr - TK*dSr;
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
-- 
2.43.0


From 51c74283e47ec3eb1bccd715cfb34e1ad0937a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 18/63] fix: internal and Helmholtz energies of the
 Ryzhenko-Bryzgalin model mix J/Pa with bar

---
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index d2e7c9b..4ad8afb 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -10,7 +10,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
 //    auto ref_tpr = reaction.thermoReferenceProperties();
     auto RHO = wp.density / 1000; // check units
     auto ALP = wp.Alpha;
-    auto BET = wp.Beta;
+    auto BET = wp.Beta*1e05; // in 1/bar
     auto dALPdT = wp.dAldT;
     auto RBcoef = reaction.thermoParameters().reaction_RB_coeff;
 
@@ -71,7 +71,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     tpr.reaction_entropy           = dSr;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_heat_capacity_cp  = dCPr;
-    tpr.reaction_volume            = dVr*1e5; // to J/bar
+    tpr.reaction_volume            = dVr; // in J/bar
     tpr.reaction_helmholtz_energy  = dAr;
     tpr.reaction_internal_energy   = dUr;
 
-- 
2.43.0


From 4d458986c7bff388666c764409501ebd2f061195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:35 +0000
Subject: [PATCH 19/63] fix: conversions between Cp=f(T) and logK=f(T) of a
 reaction

The terms in 1/T^2 were evaluated as x/T*T, and the coefficients of a given
logK=f(T) were replaced by its value at the reference temperature.
---
 ThermoFun/Reaction.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 86a9395..690246d 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -385,13 +385,13 @@ auto Reaction::convert_CpfT_to_logKfT() -> ThermoPropertiesReaction
     K_fT_Coeff[6] = -4.0*CpCoeff[3]/Rln10;
 
     // Calculation of Cpr and lgK at 25 C
-    auto Cpr  = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/TK*TK + CpCoeff[3]/pow(TK,0.5) + CpCoeff[4]*TK*TK;
-    auto lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/TK*TK +
+    auto Cpr  = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/(TK*TK) + CpCoeff[3]/pow(TK,0.5) + CpCoeff[4]*TK*TK;
+    auto lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
          Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
             2.0*K_fT_Coeff[4]/TK + 2.0*K_fT_Coeff[5]*TK*TK*TK - 0.5*K_fT_Coeff[6]*pow(TK,0.5) );
          Sr = Rln10 * ( K_fT_Coeff[0] + 2.0*K_fT_Coeff[1]*TK + K_fT_Coeff[3]*(1.0 + log(TK))
-            - K_fT_Coeff[4]/TK*TK + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
+            - K_fT_Coeff[4]/(TK*TK) + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
 
     auto th_param = thermoParameters();
     th_param.reaction_Cp_fT_coeff   = CpCoeff;
@@ -429,19 +429,19 @@ auto Reaction::convert_logKfT_toCpfT(/*MethodCorrT_Thrift::type methodT*/) -> Th
     case MethodCorrT_Thrift::type::CTM_LGK:
        /* Calc lgK, Hr and Sr */
         CpCoeff.resize(5);
-        lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/TK*TK +
+        lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
         Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
                 2.0*K_fT_Coeff[4]/TK + 2.0*K_fT_Coeff[5]*TK*TK*TK - 0.5*K_fT_Coeff[6]*pow(TK,0.5) );
         Sr = Rln10 * ( K_fT_Coeff[0] + 2.0*K_fT_Coeff[1]*TK + K_fT_Coeff[3]*(1.0 + log(TK))
-                - K_fT_Coeff[4]/TK*TK + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
+                - K_fT_Coeff[4]/(TK*TK) + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
 
         CpCoeff[0] = Rln10 * K_fT_Coeff[3];
         CpCoeff[1] = Rln10 * 2.0 * K_fT_Coeff[1];
         CpCoeff[2] = Rln10 * 2.0 * K_fT_Coeff[4];
         CpCoeff[3] = -Rln10 * 0.25 * K_fT_Coeff[6];
         CpCoeff[4] = Rln10 * 6.0 * K_fT_Coeff[5];
-        Cpr   = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/TK*TK + CpCoeff[4]*TK*TK + CpCoeff[3]/pow(TK,0.5);
+        Cpr   = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/(TK*TK) + CpCoeff[4]*TK*TK + CpCoeff[3]/pow(TK,0.5);
 
         ref_prop.reaction_entropy = Sr;  // In this case, everything will be inserted
         ref_prop.reaction_enthalpy = Hr;
@@ -481,6 +481,9 @@ auto Reaction::calc_logK_fT_coefficients() -> vd
     case MethodCorrT_Thrift::type::CTM_MRB: // 3-term extrap. from MRB at 25 C (provisional DK 06.08.07)
     case MethodCorrT_Thrift::type::CTM_LGK:  // Here, all logK-f(T) coeffs are given
     case MethodCorrT_Thrift::type::CTM_LGX:  // uncommented, 19.06.2008
+        if (!pimpl->thermo_parameters.reaction_logK_fT_coeff.empty())
+            K_fT_Coeff = pimpl->thermo_parameters.reaction_logK_fT_coeff;
+        K_fT_Coeff.resize(7, 0.0);
         break;
     case MethodCorrT_Thrift::type::CTM_IKZ:  // Isotopic forms
         return K_fT_Coeff;
-- 
2.43.0


From 71de862a3ce676a4997257291841d8597acce7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:35 +0000
Subject: [PATCH 20/63] fix: logK extrapolations of reactions are consistent
 with the energies returned

The reference enthalpy and entropy and the coefficients made from Cp=f(T) were
taken at the temperature of the query instead of the reference temperature, the
one- and two-term extrapolations returned the reference entropy, enthalpy and
heat capacity with them although these follow from log K, and the internal and
Helmholtz energies were left out when the enthalpy was zero.
---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 50 ++++++++++++++--------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index e99d572..4218da5 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -1,6 +1,7 @@
 #include "LogK_function_of_T.h"
 #include "ThermoParameters.h"
 #include "Reaction.h"
+#include "Common/Exception.h"
 #include <algorithm>
 
 namespace ThermoFun {
@@ -71,12 +72,19 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     const bool has_dHr  = dHr.sta.first  != Status::notdefined;
     const bool has_dSr  = dSr.sta.first  != Status::notdefined;
+    const bool has_lgK  = lgK.sta.first  != Status::notdefined;
+
+    // the reference Gibbs energy and the reference logK follow from each other
+    if(has_lgK && dGr.sta.first == Status::notdefined)
+        dGr = -Rln10 * Tr * lgK;
     const bool has_dGr = dGr.sta.first != Status::notdefined;
+    if(has_dGr && !has_lgK)
+        lgK = -dGr / (Rln10 * Tr);
 
     if(has_dSr && has_dGr && !has_dHr)
-        dHr = dGr + dSr * TK;
+        dHr = dGr + dSr * Tr;
     if(has_dHr && has_dGr && !has_dSr)
-        dSr = (dHr-dGr)/TK;
+        dSr = (dHr-dGr)/Tr;
 
     if (CE == MethodCorrT_Thrift::type::CTM_EK3)
         CE = determineMethod(dGr,dHr,dSr,dCpr);
@@ -86,20 +94,21 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     {
         case MethodCorrT_Thrift::type::CTM_EK0: // 1-term lgK = const
         // lgK = A[0];
-        // dCpr = 0.0;
-        // dHr  = 0.0;
+            dCpr = 0.0;
+            dHr  = 0.0;
+            dSr  = Rln10 * lgK;
             break;
         case MethodCorrT_Thrift::type::CTM_EK1: // 1-term dGr = const
                 // lgK = A[2]/T;
-            // dCpr = 0.0;
-            // dSr  = 0.0;
+            dCpr = 0.0;
+            dSr  = 0.0;
             dHr = dGr;
                 // dGr_d = dHr;
             lgK  = - dHr / TK / Rln10;
           break;
         case MethodCorrT_Thrift::type::CTM_EK2:  // 2-term or 1-term lgK=const at dHr=0
                 // lgK = A[0] + A[2]/T;
-            // dCpr = 0.0;
+            dCpr = 0.0;
                 // dGr_d = dHr - dSr * T;
             lgK  = (dSr - dHr/TK ) / Rln10;
           break;
@@ -112,25 +121,29 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
           break;
        case MethodCorrT_Thrift::type::CTM_LGK:  // full 7-term logK approx
        case MethodCorrT_Thrift::type::CTM_LGX:  // (derived from dCp=f(T))
-            if (A.size() == 0 && CpCoeff.size() > 0)
+            if (A.size() == 0 && CpCoeff.size() == 0)
+                errorModelParameters("logKfT or CpfT", reaction.symbol(), __LINE__, __FILE__);
+
+            if (A.size() == 0)
             {
                 //from Cp to A
                 A.resize(7, 0.0);
                 CpCoeff.resize(5, 0.0);
+                const Reaktoro_::ThermoScalar TR(Tr); // the reference properties hold at the reference temperature
 
                 // calculation of logK=f(T) coeffs (only first 5 Cp coefficients, conforming to Haas-Fisher function)
-                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(TK) - CpCoeff[1]*TK + CpCoeff[2]/(2.0*TK*TK)
-                              + 2.0*CpCoeff[3]/pow(TK,0.5) - CpCoeff[4]*TK*TK/2.0 ) / Rln10).val;
+                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(TR) - CpCoeff[1]*TR + CpCoeff[2]/(2.0*TR*TR)
+                              + 2.0*CpCoeff[3]/pow(TR,0.5) - CpCoeff[4]*TR*TR/2.0 ) / Rln10).val;
                 A[1] = CpCoeff[1]/(2.0*Rln10);
-                A[2] = (-( dHr - CpCoeff[0]*TK - CpCoeff[1]*TK*TK/2.0 + CpCoeff[2]/TK
-                           - 2.0*CpCoeff[3]*pow(TK,0.5) - CpCoeff[4]*TK*TK*TK/3.0 ) / Rln10).val;
+                A[2] = (-( dHr - CpCoeff[0]*TR - CpCoeff[1]*TR*TR/2.0 + CpCoeff[2]/TR
+                           - 2.0*CpCoeff[3]*pow(TR,0.5) - CpCoeff[4]*TR*TR*TR/3.0 ) / Rln10).val;
                 A[3] = CpCoeff[0]/Rln10;
                 A[4] = CpCoeff[2]/(2.0*Rln10);
                 A[5] = CpCoeff[4]/(6.0*Rln10);
                 A[6] = -4.0*CpCoeff[3]/Rln10;
             }
 
-            if (CpCoeff.size() == 0 && A.size() > 0)
+            if (CpCoeff.size() == 0)
             {
                 //from A to Cp
                 A.resize(7, 0.0);
@@ -143,6 +156,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff[4] = Rln10 * 6.0 * A[5];
             }
 
+            A.resize(7, 0.0);
+            CpCoeff.resize(5, 0.0);
+
             lgK = A[0] + A[1] * TK + A[2]/TK + A[3] * log(TK) + A[4] / (TK*TK) +
                   A[5] * (TK*TK) + A[6] / pow(TK,0.5);
             dHr = Rln10 *( A[1]*(TK*TK) - A[2] + A[3]*TK - 2.0*A[4]/TK
@@ -163,12 +179,8 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     // Calculation of dGr
     dGr  = -R_T * lgK * lg_to_ln;
 //    if (dHr.val == 0) dHr = dGr + dSr * TK;
-    Reaktoro_::ThermoScalar dUr, dAr;
-    if (dHr.val != 0)
-    {
-        dUr  = dHr - Pbar*dVr;
-        dAr  = dUr - TK*dSr;
-    }
+    auto dUr  = dHr - Pbar*dVr;
+    auto dAr  = dUr - TK*dSr;
 
     // Loading output data
     tpr.log_equilibrium_constant   = lgK;
-- 
2.43.0


From e94274fe1855aef1e0df2783b663857bc7f60b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 21/63] fix: third derivatives of the Helmholtz energy of water
 (HGK and WP95)

---
 .../Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp  | 6 +++---
 .../Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
index 5d6fe4e..8b08abc 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
@@ -266,7 +266,7 @@ namespace ThermoFun {
             const auto x_tt = y_tt * x2 + 2.0 * y_t * x_t * x;
             const auto x_rt = y_rt * x2 + 2.0 * y_r * x_t * x;
             const auto x_rrr = y_rrr * x2 + 4 * y_rr * x_r * x + 2 * y_r * (x_rr * x + x_r * x_r);
-            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) + 2 * y_r * (x_rt * x + x_r * x_t);
+            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) * x + 2 * y_r * (x_rt * x + x_r * x_t);
             const auto x_rtt = y_rtt * x2 + 4 * y_rt * x_t * x + 2 * y_r * (x_tt * x + x_t * x_t);
             const auto x_ttt = y_ttt * x2 + 4 * y_tt * x_t * x + 2 * y_t * (x_tt * x + x_t * x_t);
 
@@ -294,7 +294,7 @@ namespace ThermoFun {
             s.helmholtzDDD = A20 * t * (u_rrr + c1 * x_rrr + 2 * c2 * (3 * x_r * x_rr + x * x_rrr) + c3 * y_rrr);
             s.helmholtzTDD = A20 * t * (u_rrt + c1 * x_rrt + 2 * c2 * (x_t * x_rr + 2 * x_r * x_rt + x * x_rrt) + c3 * y_rrt) + s.helmholtzDD / t;
             s.helmholtzTTD = A20 * t * (u_rtt + c1 * x_rtt + 2 * c2 * (x_r * x_tt + 2 * x_t * x_rt + x * x_rtt) + c3 * y_rtt) + 2 * (s.helmholtzTD - s.helmholtzD / t) / t;
-            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + s.helmholtz / (t * t)) / t;
+            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + 2 * s.helmholtz / (t * t)) / t;
 
             return s;
         }
@@ -369,7 +369,7 @@ namespace ThermoFun {
                 const auto theta_tt = 2 * beta[i] * (2 * beta[i] * tau * tau - 1) * tau_t * tau_t * theta;
                 const auto theta_rt = -2 * beta[i] * tau * tau_t * theta_r;
                 const auto theta_rrr = psi_rr * theta + 2 * psi_r * theta_r + psi * theta_rr;
-                const auto theta_rrt = psi_r * theta_r + psi * theta_rt;
+                const auto theta_rrt = psi_r * theta_t + psi * theta_rt;
                 const auto theta_rtt = psi * theta_tt;
                 const auto theta_ttt = -2 * beta[i] * (2 * tau_t * tau_t * theta_t + tau * tau_t * theta_tt);
 
diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
index 52194f1..aa52ba4 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
@@ -370,7 +370,7 @@ auto waterHelmholtzStateWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoS
 	const auto phiTT  = phi_tt*tT*tT + phi_t*tTT;
 	const auto phiTD  = phi_dt*tT*dD;
 	const auto phiDD  = phi_dd*dD*dD;
-	const auto phiTTT = phi_ttt*tT*tT*tau*T + 3*phi_tt*tT*tTT + phi_t*tTTT;
+	const auto phiTTT = phi_ttt*tT*tT*tT + 3*phi_tt*tT*tTT + phi_t*tTTT;
 	const auto phiTTD = phi_dtt*tT*tT*dD + phi_dt*tTT*dD;
 	const auto phiTDD = phi_ddt*tT*dD*dD;
 	const auto phiDDD = phi_ddd*dD*dD*dD;
-- 
2.43.0


From 3d58b82792276622cabbdd4a161e8d089dcad734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 22/63] fix: triple point temperature of the HGK water
 properties (273.16 K)

---
 ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp b/ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp
index 6e9442d..3e573c7 100644
--- a/ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp
@@ -10,7 +10,7 @@ namespace ThermoFun {
 auto thermoPropertiesWaterHGKreaktoro(Reaktoro_::Temperature T, const WaterThermoState& wt, const WaterTripleProperties& wtr) -> ThermoPropertiesSubstance
 {
     // Auxiliary data from Helgeson and Kirkham (1974), on page 1098
-    const auto Ttr =  273.15;             // unit: K
+    const auto Ttr =  273.16;             // unit: K
 //    const auto Str =  15.1320 * cal_to_J; // unit: J/(mol*K)
 //    const auto Gtr = -56290.0 * cal_to_J; // unit: J/mol
 //    const auto Htr = -68767.0 * cal_to_J; // unit: J/mol
-- 
2.43.0


From 255616faee1061f7326cf66a0a498f83b29e95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 23/63] fix: saturated vapour density and pressure of water in
 the Reaktoro utilities

The auxiliary equation for the saturated vapour density has no factor Tc/T,
waterPressureWagnerPruss evaluated the HGK equation, and both pressure
functions dropped the derivatives of dA/dD.
---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index dc39d41..fccfd53 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -96,7 +96,7 @@ template<typename HelmholtzModel>
 auto waterPressure(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D, const HelmholtzModel& model) -> Reaktoro_::ThermoScalar
 {
     WaterHelmholtzState h = model(T, D);
-    return D*D*h.helmholtzD.val;
+    return D*D*h.helmholtzD;
 }
 
 auto waterPressureHGK(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Reaktoro_::ThermoScalar
@@ -106,7 +106,7 @@ auto waterPressureHGK(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Re
 
 auto waterPressureWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Reaktoro_::ThermoScalar
 {
-    return waterPressure(T, D, waterHelmholtzStateHGK);
+    return waterPressure(T, D, waterHelmholtzStateWagnerPruss);
 }
 
 auto waterSaturatedPressureWagnerPruss(Reaktoro_::Temperature T) -> Reaktoro_::ThermoScalar
@@ -175,7 +175,7 @@ auto waterSaturatedVapourDensityWagnerPruss(Reaktoro_::Temperature T) -> Reaktor
     const auto t376 = t186 * t186 * t16;
     const auto t716 = t376 * t186 * t86 * t86;
 
-    return Dcr * exp(Tcr/T * (c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716));
+    return Dcr * exp(c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716);
 }
 
 } // namespace Reaktoro
-- 
2.43.0


From 7d03d8981da1adcdead0964dcbf83b69c152b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:11 +0000
Subject: [PATCH 24/63] fix: pressure derivatives of the Zhang-Duan density of
 water are per Pa

densityPP was converted by 1e-5 instead of 1e-10, densityP.ddp not at all, and
the pressure handed to the model was already scaled, so that every pressure
derivative carried along was scaled twice.
---
 ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp | 4 ++--
 ThermoFun/ThermoModelsSolvent.cpp                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
index ecc57d1..658df43 100644
--- a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
+++ b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
@@ -194,9 +194,9 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
 
     ps.density   = D /* * 1000*/; ps.density.ddp*=1e-05;
     ps.densityT  = DdT; ps.densityT.ddp*=1e-05;
-    ps.densityP  = DdP*1e-05;
+    ps.densityP  = DdP*1e-05; ps.densityP.ddp*=1e-05;
     ps.densityTT = Dd2T; ps.densityTT.ddp*=1e-05;
-    ps.densityPP = Dd2P*1e-05;
+    ps.densityPP = Dd2P*1e-10; // from 1/bar2 to 1/Pa2
     ps.Alpha     = -ps.densityT/ps.density;
     ps.Beta      = ps.densityP/ps.density/*/1e+05*/; // from 1/bar to 1/Pa
     ps.dAldT     = -ps.densityTT/ps.density + ps.Alpha*ps.Alpha;
diff --git a/ThermoFun/ThermoModelsSolvent.cpp b/ThermoFun/ThermoModelsSolvent.cpp
index 14214c8..7288f7d 100644
--- a/ThermoFun/ThermoModelsSolvent.cpp
+++ b/ThermoFun/ThermoModelsSolvent.cpp
@@ -218,7 +218,7 @@ WaterZhangDuan2005::WaterZhangDuan2005(const Substance &substance)
 auto WaterZhangDuan2005::propertiesSolvent(double T, double P, int /*state*/) -> PropertiesSolvent
 {
     auto t = Reaktoro_::Temperature(T);
-    auto p = Reaktoro_::Pressure(P); p /= bar_to_Pa;
+    auto p = Reaktoro_::Pressure(P/bar_to_Pa); // the results are converted from 1/bar to 1/Pa
 
     checkModelValidity(T, P, 2273.15, 273.15, 3e10, 1e8, "Zhang and Duan (2005) H2O model.");
 
-- 
2.43.0


From c4031947e673cdbd0f260570bd6c593c67014282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:04 +0000
Subject: [PATCH 25/63] fix: pressure derivatives of the dielectric constant
 are per Pa, numerical ones defined at 0 C and at saturation

---
 .../Substances/Solvent/WaterElectroFernandez1997.cpp  | 11 ++++++-----
 .../Substances/Solvent/WaterElectroSverjensky2014.cpp |  7 ++++---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp      |  2 +-
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
index a3ede01..d35735a 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
@@ -53,18 +53,19 @@ auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Te
     Reaktoro_::Pressure P(Pbar.val * 1e05);
 
     auto psol = th.propertiesSolvent(TK.val, P.val, substance.symbol(), state);
+    Pbar.val = P.val / 1e05; // the saturation pressure when the pressure was given as 0
     const auto RHO = psol.density ;
 
     const auto eps = epsilonF(TK, RHO);
     const auto epsilon2 = eps * eps;
 
     // numerical approximation of epsilonT and epsilonTT
-    Reaktoro_::Temperature T_plus (TC.val+TC.val*0.001);
+    Reaktoro_::Temperature T_plus (TC.val+TK.val*0.001);
     Reaktoro_::Temperature TK_plus (T_plus.val + 273.15);
     auto RHO_plus = th.propertiesSolvent(TK_plus.val, P.val, substance.symbol(), state).density;
     auto eps_plus = epsilonF(TK_plus, RHO_plus);
 
-    Reaktoro_::Temperature T_minus (TC.val-TC.val*0.001);
+    Reaktoro_::Temperature T_minus (TC.val-TK.val*0.001);
     Reaktoro_::Temperature TK_minus (T_minus.val + 273.15);
     auto RHO_minus  = th.propertiesSolvent(TK_minus.val, P.val, substance.symbol(), state).density;
     auto eps_minus = epsilonF(TK_minus, RHO_minus);
@@ -87,13 +88,13 @@ auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Te
     const auto epsilonPP = (eps_plus + eps_minus - 2*eps)/pow(((P_plus-P_minus)*0.5),2);
 
     wep.epsilon   = eps;
-    wep.epsilonP  = epsilonP;
-    wep.epsilonPP = epsilonPP;
+    wep.epsilonP  = epsilonP*1e-05;   // from 1/bar to 1/Pa
+    wep.epsilonPP = epsilonPP*1e-10;  // from 1/bar^2 to 1/Pa^2
     wep.epsilonT  = epsilonT;
     wep.epsilonTT = epsilonTT;
     wep.bornZ = -1.0/wep.epsilon;
     wep.bornY = wep.epsilonT/epsilon2;
-    wep.bornQ = wep.epsilonP/epsilon2*1e-05; // from 1/bar to 1/Pa
+    wep.bornQ = wep.epsilonP/epsilon2;
 //	we.bornU = we.epsilonTP/epsilon2 - 2.0*we.bornY*we.bornQ*we.epsilon;
 //	we.bornN = we.epsilonPP/epsilon2 - 2.0*we.bornQ*we.bornQ*we.epsilon;
     wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
diff --git a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
index e5a907b..4c48d5f 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
@@ -38,6 +38,7 @@ auto electroPropertiesWaterSverjensky2014(/*PropertiesSolvent ps,*/ Reaktoro_::T
     Reaktoro_::Pressure P(Pbar.val * 1e05);
 
     auto psol = th.propertiesSolvent(TK.val, P.val, substance.symbol(), state);
+    Pbar.val = P.val / 1e05; // the saturation pressure when the pressure was given as 0
 
     const auto RHO = psol.density /1000;
     const auto eps = epsilonS(TC, RHO);
@@ -70,13 +71,13 @@ auto electroPropertiesWaterSverjensky2014(/*PropertiesSolvent ps,*/ Reaktoro_::T
     const auto epsilonPP = (eps_plus + eps_minus - 2*eps)/pow(((P_plus-P_minus)*0.5),2);
 
     wep.epsilon   = eps;
-    wep.epsilonP  = epsilonP;
-    wep.epsilonPP = epsilonPP;
+    wep.epsilonP  = epsilonP*1e-05;   // from 1/bar to 1/Pa
+    wep.epsilonPP = epsilonPP*1e-10;  // from 1/bar^2 to 1/Pa^2
     wep.epsilonT  = epsilonT;
     wep.epsilonTT = epsilonTT;
     wep.bornZ = -1.0/wep.epsilon;
     wep.bornY = wep.epsilonT/epsilon2;
-    wep.bornQ = wep.epsilonP/epsilon2*1e-05; // from 1/bar to 1/Pa
+    wep.bornQ = wep.epsilonP/epsilon2;
 //	we.bornU = we.epsilonTP/epsilon2 - 2.0*we.bornY*we.bornQ*we.epsilon;
 //	we.bornN = we.epsilonPP/epsilon2 - 2.0*we.bornQ*we.bornQ*we.epsilon;
     wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 7e60a0b..601eb02 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -210,7 +210,7 @@ auto WaterHGKgems::electroPropertiesWaterJNgems(int state) -> ElectroPropertiesS
 
     wp.epsilonT  = yborn * pow(eps,2.);
     wp.epsilonTT = (xborn + 2.*eps*pow(yborn,2.)) * pow(eps,2.);
-    wp.epsilonP  = qborn * pow(eps,2.);
+    wp.epsilonP  = qborn / 1e05 * pow(eps,2.); // from bar-1 to Pa-1
 
 return wp;
 }
-- 
2.43.0


From 1e9481b44a808c6fae7d880890e891a2c2e8cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 26/63] fix: entropy, heat capacity and enthalpy of the
 Holland-Powell and Anderson solute models; derivatives carried by the
 Akinfiev-Diamond model

---
 ThermoFun/Substances/Solute/SoluteADgems.cpp  |  7 ++++--
 .../Substances/Solute/SoluteAnderson91.cpp    |  2 +-
 .../Solute/SoluteHollandPowell98.cpp          | 24 ++++++++++---------
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 80d9e1a..cf0d693 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -63,6 +63,9 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
     Akinfiev_EOS_increments(Tr, Pr, Gig, Sig, CPig, Gw, Sw, CPw, rho, alp, bet, dalpT, ADparam,
                        Geos298, Veos298, Seos298, CPeos298, Heos298 );
 
+    // The properties of hydration at Tr, Pr are constants
+    for (auto x : {&Geos298, &Seos298, &Heos298}) { x->ddt = 0.0; x->ddp = 0.0; }
+
     // Getting back ideal gas properties corrected for T of interest
     // by substracting properties of hydration at Tr, Pr
     Gids    = state.gibbs_energy    -= Geos298;
@@ -89,8 +92,8 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
 
     // Getting dissolved gas properties corrected for T,P of interest
     // by adding properties of hydration at T,P
-    Gids.ddp = 0.0; Sids.ddp = 0.0; CPids.ddp = 0.0;
-    state.gibbs_energy     = Gids + Geos + Seos298.val*(Tk.val-Tr);  // S(T-Tr) corrected for dSh at Tr,Pr
+    Gids.ddp = 0.0; Sids.ddp = 0.0; CPids.ddp = 0.0; Hids.ddp = 0.0;
+    state.gibbs_energy     = Gids + Geos + Seos298.val*(Tk-Tr);  // S(T-Tr) corrected for dSh at Tr,Pr
     // aW.twp->V = Vids + Veos;
     state.volume           = Veos;
     state.entropy          = Sids + Seos;
diff --git a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
index 928011d..b440469 100644
--- a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
+++ b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
@@ -35,7 +35,7 @@ auto thermoPropertiesAqSoluteAN91(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto S = S298 - (Cp298*(ALPw298 - ALPw))/(T298*dALPdTw298);
     Reaktoro_::ThermoScalar V(V298); //-(Cp298*ALPw)/(T298*dALPdTw298); // the model does not include a volume term!
     auto Cp = T*(Cp298*dALPdTw)/(T298*dALPdTw298);
-    auto H = G_bb + T*S298;
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
diff --git a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
index 8fc3561..a95ce97 100644
--- a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
@@ -10,7 +10,6 @@ namespace ThermoFun {
 auto thermoPropertiesAqSoluteHP98(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, const PropertiesSolvent &wpr,  const PropertiesSolvent& wp) -> ThermoPropertiesSubstance
 {
     auto T = TK;
-    double Tprime = 0.0;
     ThermoPropertiesSubstance tps;
     auto tpsr = subst.thermoReferenceProperties();
     double T298 = subst.referenceT();
@@ -50,17 +49,20 @@ auto thermoPropertiesAqSoluteHP98(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto BETw = wp.Beta*1e5; // 1/bar
     auto dALPdTw = wp.dAldT;
 
-    if (T <= 500)
-        Tprime = T.val;
-    else
-        Tprime = 500;
+    // T/T' and its temperature derivative (T' = T up to 500 K and 500 K above)
+    Reaktoro_::ThermoScalar tau(1.0), tauT(0.0);
+    if (T > 500)
+    {
+        tau  = T/500.;
+        tauT = 1/500.;
+    }
 
-    auto G_bb = H298 - T*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
-    auto G = G298 - (T - T298)*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
-    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 - log(RHOw/RHOw298)/Tprime - (T/Tprime)*ALPw);
-    auto V = V298 + (Cp298 - T298*b)/(T298*dALPdTw298)*( -BETw298 + T/Tprime*BETw );
-    auto Cp = T*(b - ((T298*b - Cp298)*(T*dALPdTw))/(T298*dALPdTw298*Tprime));
-    auto H = G_bb + T*S298;
+    auto G_bb = H298 - T*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + tau*log(RHOw/RHOw298) );
+    auto G = G298 - (T - T298)*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + tau*log(RHOw/RHOw298) );
+    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 + tauT*log(RHOw/RHOw298) - tau*ALPw);
+    auto V = V298 + (Cp298 - T298*b)/(T298*dALPdTw298)*( -BETw298 + tau*BETw );
+    auto Cp = T*(b + (Cp298 - T298*b)/(T298*dALPdTw298)*(tau*dALPdTw + 2.*tauT*ALPw));
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
-- 
2.43.0


From 512a3ed58ed39b29102eb32994d803e105431d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:06 +0000
Subject: [PATCH 27/63] fix: Gibbs and Helmholtz energy of water in the steam
 tables convention (the entropy is shifted too)

---
 ThermoFun/ThermoEngine.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 0c39854..449c67a 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -176,12 +176,14 @@ struct ThermoEngine::Impl
         };
     }
 
-    auto toSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat) const -> void
+    auto toSteamTables(double T, ThermoPropertiesSubstance &tps, WaterTripleProperties wat) const -> void
     {
-        tps.gibbs_energy -= wat.Gtr;
+        // the entropy is zero at the triple point as well, which changes the energies away from it
+        const auto TStr = wat.Str * (Reaktoro_::Temperature(T) - 273.16);
+        tps.gibbs_energy -= wat.Gtr - TStr;
         tps.enthalpy -= wat.Htr;
         tps.entropy -= wat.Str;
-        tps.helmholtz_energy -= wat.Atr;
+        tps.helmholtz_energy -= wat.Atr - TStr;
         tps.internal_energy -= wat.Utr;
     }
 
@@ -493,7 +495,7 @@ struct ThermoEngine::Impl
             {
                 if (iequals(conventions.water_properties, "STEAM_TABLES"))
                 {
-                    toSteamTables(tps, waterTripleData.at(water_triple_reference));
+                    toSteamTables(T, tps, waterTripleData.at(water_triple_reference));
                 }
             }
             else
-- 
2.43.0


From 91f7f92594787e5e055bc7a35264deb771c58ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:58 +0000
Subject: [PATCH 28/63] fix: vapor of the SUPCRT92 water above saturation was
 evaluated at the density of the liquid

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 601eb02..af43bf8 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1748,9 +1748,10 @@ auto WaterHGKgems::HGKeqn(int isat, int iopt, int itripl, double Temp,
 
         if ((aSta.Pres*10 > aSta.Psat) && (Temp < 0.647126e3) && (!aSpc.isat))
         {
+            // calcv2 puts the density of the vapor in Dens[1], and leaves the state it belongs to for thmHGK
             calcv2(3, itripl, Temp, Pres, &aSta.Dens[0], epseqn);
-            thmHGK(&aSta.Dens[0], Temp);
-            dimHGK(1, itripl, Temp, Pres, &aSta.Dens[0], epseqn);
+            thmHGK(&aSta.Dens[1], Temp);
+            dimHGK(1, itripl, Temp, Pres, &aSta.Dens[1], epseqn);
 
             double temp = aSta.Dens[0];
             aSta.Dens[0] = aSta.Dens[1];
-- 
2.43.0


From ec5496645728389133dc7f4855fe5463b0a54f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 29/63] fix: dalLVS raised the radius to a power of its
 temperature derivative

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index af43bf8..2a2c707 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1411,11 +1411,11 @@ auto WaterHGKgems::dalLVS(double D, double T, double P, double alpha) -> double
                                      dsdT[i] + s[i] * (1.0 - calpha[i]) *
                                      pow(a2.r,-calpha[i]) * drdT);
         dPdMMT = dPdMMT + k[i] * ((pow(a2.r,(-cgamma[i])) * dudT[i] -
-                                   u[i] * cgamma[i] * pow(a2.r,(-1.0 - cgamma[i]) * drdT)) /
+                                   u[i] * cgamma[i] * pow(a2.r,(-1.0 - cgamma[i])) * drdT) /
                                   a + 2.0 * c * (pow(a2.r,(cbeta[i] - 1.0)) * dvdT[i] +
                                                  v[i] * (cbeta[i] - 1.0) * pow(a2.r,(cbeta[i] - 2.0)) * drdT)
                                   + a * pow(c,2.) * (pow(a2.r,(-calpha[i])) * dwdT[i] -
-                                                     calpha[i] * w[i] * pow(a2.r,(-1.0 - calpha[i]) * drdT)));
+                                                     calpha[i] * w[i] * pow(a2.r,(-1.0 - calpha[i])) * drdT));
         dPdMTT = dPdMTT + k[i] * (pow(a2.r,(cbeta[i] - 1.0)) * dvdT[i] +
                                   v[i] * (cbeta[i] - 1.0) * pow(a2.r,(cbeta[i] - 2.0)) *
                                   drdT + a * c * (pow(a2.r,(-calpha[i])) * dwdT[i] -
-- 
2.43.0


From 9005f3eb3844d416aee6376a635c1d3ff201e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 30/63] fix: dalHGK divided by the density parameter where the
 reduced density belongs

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 2a2c707..3e88b56 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -2977,7 +2977,7 @@ auto WaterHGKgems::dalHGK(double *d, double t, double alpha) -> double
         drdd   += nc->g[i] * xdell * ex12 / di * qm;
 
         dr2dd  += nc->g[i] * xdell * ex12 / di / di * (qm * qm -
-                  l / di / di - ai * k * km * pow(del,k-2.0e0));
+                  l / del / del - ai * k * km * pow(del,k-2.0e0));
 
         dr2ddt -= nc->g[i] * 2.0e0 * bi * tau * ex12 * xdell / ti / di * qm;
 
-- 
2.43.0


From 1a172df184f27d5de84904083119ae33ba63109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:32 +0000
Subject: [PATCH 31/63] fix: one-phase water near the critical point below Tc
 was returned as a pair of phases, one of them empty

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 3e88b56..6e59f98 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -476,6 +476,7 @@ auto WaterHGKgems::calculateWaterHGKgems(double T, double &P, WaterTriplePropert
     { // calculation of thermodynamic and transport water properties
         // in the near critical region
         ideal(aSta.Temp);   // bugfix for Akinfiev nonelectrolyte model (TW, 16.05.2008)
+        const int twophase = aSpc.isat;     // LVSeqn returns the second phase only on the saturation line
         LVSeqn(aSpc.isat, aSpc.iopt, aSpc.itripl,
                aSta.Temp, &aSta.Pres, &aSta.Dens[0], aSpc.epseqn);
         aSta.Dens[0] /= 1.0e3;
@@ -484,7 +485,7 @@ auto WaterHGKgems::calculateWaterHGKgems(double T, double &P, WaterTriplePropert
 
         WPROPS tw = wl;
         memcpy(&wl, &wr, sizeof(WPROPS));
-        if (aSta.Temp <= cr->Tc) // only below critical T we have two phases
+        if (twophase == 1)
             memcpy(&wr, &tw, sizeof(WPROPS));
         else
             aSta.Dens[1] = aSta.Dens[0];
-- 
2.43.0


From 30b157bd9c45dfaa697dfc83ad4f472e1c985278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 32/63] fix: the density of liquid water just above saturation
 was overwritten with the vapor's

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 6e59f98..87834cd 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1749,14 +1749,14 @@ auto WaterHGKgems::HGKeqn(int isat, int iopt, int itripl, double Temp,
 
         if ((aSta.Pres*10 > aSta.Psat) && (Temp < 0.647126e3) && (!aSpc.isat))
         {
+            const double liquid = aSta.Dens[1];     // wl belongs to it
             // calcv2 puts the density of the vapor in Dens[1], and leaves the state it belongs to for thmHGK
             calcv2(3, itripl, Temp, Pres, &aSta.Dens[0], epseqn);
             thmHGK(&aSta.Dens[1], Temp);
             dimHGK(1, itripl, Temp, Pres, &aSta.Dens[1], epseqn);
 
-            double temp = aSta.Dens[0];
             aSta.Dens[0] = aSta.Dens[1];
-            aSta.Dens[1] = temp;
+            aSta.Dens[1] = liquid;
 
 //            memcpy(&wl, &wr, sizeof(WPROPS));
 //            calcv3(iopt, itripl, Temp, Pres, Dens0, epseqn);
-- 
2.43.0


From 5f1b372699075ffda554ee74edd41682af8e6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 33/63] fix: a substance in several terms of a reaction kept
 only its last coefficient, and those of an earlier equation stayed

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 +-
 ThermoFun/Reaction.cpp               | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 620e799..ecbfaf8 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -456,7 +456,7 @@ auto getReactants(const json &r) -> std::map<std::string, double>
         if (j.contains("symbol"))
             if (j.contains("coefficient"))
                 if (!j["symbol"].is_null() && !j["coefficient"].is_null())
-                    reactants[j["symbol"]] = j["coefficient"].get<double>();
+                    reactants[j["symbol"]] += j["coefficient"].get<double>();
     }
     return reactants;
 }
diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 690246d..b332b02 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -126,13 +126,15 @@ struct Reaction::Impl
         double coef = 1.;
         std::string reactant;
 
+        reactants.clear();
+
         std::vector<std::string> parts = regexp_split(str_reactants,  "\\s+\\+\\s+" /*"\\s+"*/ );
         for( const auto& el: parts)
         {
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef*(-1.);
+                reactants[reactant] -= coef;
         }
 
         parts = regexp_split(str_products, "\\s+\\+\\s+" /*"\\s+"*/ );
@@ -141,7 +143,7 @@ struct Reaction::Impl
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef;
+                reactants[reactant] += coef;
         }
     }
 };
-- 
2.43.0


From a51be4b23c20d6820c9b29204a902cd184af1ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 34/63] fix: a field absent from a record took the value of
 another field, or an indeterminate one

---
 ThermoFun/Common/ParseJsonToData.cpp | 25 +++++++++++++------------
 ThermoFun/ThermoParameters.h         |  4 ++--
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index ecbfaf8..cecd33e 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -155,7 +155,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
     if (j.contains(data)) {
         const auto& entry = j[data];
 
-        if (entry.contains("units") && entry["units"].is_array() && !entry["units"][0].is_null())
+        if (entry.contains("units") && entry["units"].is_array() && !entry["units"].empty() && !entry["units"][0].is_null())
             unit_from = entry["units"][0].get<std::string>();
 
         // Temporary fixes
@@ -169,7 +169,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
             factor = 1;
         }
 
-        if (entry.contains("values") && entry["values"].is_array() && !entry["values"][0].is_null()) {
+        if (entry.contains("values") && entry["values"].is_array() && !entry["values"].empty() && !entry["values"][0].is_null()) {
             value = units::convert(entry["values"][0].get<double>() * factor, unit_from, unit_to);
         }
     }
@@ -488,15 +488,16 @@ auto parseElement(const std::string &data) -> Element
         if (j.contains("number"))
             if (!j["number"].is_null())
                 e.setNumber(j["number"].get<int>());
-        double val;
-        read_value_unit(j, "entropy", val, "J/(mol*K)");
-        e.setEntropy(val);
-        read_value_unit(j, "heat_capacity", val, "J/(mol*K)");
-        e.setHeatCapacity(val);
-        read_value_unit(j, "atomic_mass", val, "g/mol");
-        e.setMolarMass(val);
-        read_value_unit(j, "volume", val, "J/bar");
-        e.setVolume(val);
+        // a field which is absent leaves its property zero
+        double entropy = 0.0, heat_capacity = 0.0, atomic_mass = 0.0, volume = 0.0;
+        read_value_unit(j, "entropy", entropy, "J/(mol*K)");
+        e.setEntropy(entropy);
+        read_value_unit(j, "heat_capacity", heat_capacity, "J/(mol*K)");
+        e.setHeatCapacity(heat_capacity);
+        read_value_unit(j, "atomic_mass", atomic_mass, "g/mol");
+        e.setMolarMass(atomic_mass);
+        read_value_unit(j, "volume", volume, "J/bar");
+        e.setVolume(volume);
 
         if (j.contains("class_"))
         {
@@ -551,7 +552,7 @@ auto parseSubstance(const std::string &data) -> Substance
             if (!j["reaction"].is_null())
                 s.setReactionSymbol(j["reaction"]);
 
-        double val;
+        double val = 0.0;
         read_value_unit(j, "mass_per_mole", val, "g/mol");
         s.setMolarMass(val);
 
diff --git a/ThermoFun/ThermoParameters.h b/ThermoFun/ThermoParameters.h
index 957a873..a9ea6d5 100644
--- a/ThermoFun/ThermoParameters.h
+++ b/ThermoFun/ThermoParameters.h
@@ -75,10 +75,10 @@ typedef std::vector<std::pair<std::string,Method>> listmethods;
 struct ThermoParametersSubstance
 {
     /// Isothermal compressibility (for condensed substances)
-    double isothermal_compresibility;
+    double isothermal_compresibility = 0.0;
 
     /// Isobaric expansivity (for condensed substances)
-    double isobaric_expansivity;
+    double isobaric_expansivity = 0.0;
 
     /// Lower and upper T limits for Cp=f(T) equation
     vvd temperature_intervals;
-- 
2.43.0


From 83deb83bc2cc0535355d56a19e465a2ee5d0a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 35/63] fix: the methods solute_holland_powell98 and
 solute_anderson91 of a record selected no calculation method

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 ++
 ThermoFun/GlobalVariables.h          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index cecd33e..e2940aa 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -233,6 +233,8 @@ auto setTPMethods_old(const SubstanceTPMethodType &type, Substance &s) -> void
     case SubstanceTPMethodType::water_diel_jnort91_gems:
     case SubstanceTPMethodType::water_diel_sverj14:
     case SubstanceTPMethodType::water_diel_fern97:
+    case SubstanceTPMethodType::solute_holland_powell98:
+    case SubstanceTPMethodType::solute_anderson91:
         s.setMethodGenEoS(MethodGenEoS_Thrift::type(new_old_s_methodtype.at(type)));
         break;
     case SubstanceTPMethodType::landau_holland_powell98:
diff --git a/ThermoFun/GlobalVariables.h b/ThermoFun/GlobalVariables.h
index 8fd9466..abbf7ea 100644
--- a/ThermoFun/GlobalVariables.h
+++ b/ThermoFun/GlobalVariables.h
@@ -542,6 +542,8 @@ static const std::map<const SubstanceTPMethodType, const int> new_old_s_methodty
   {SubstanceTPMethodType::fluid_comp_redlich_kwong_hp91, 317},
   {SubstanceTPMethodType::solute_aknifiev_diamond03, 320},
   {SubstanceTPMethodType::mv_pvnrt, 300},
+  {SubstanceTPMethodType::solute_holland_powell98, 122},
+  {SubstanceTPMethodType::solute_anderson91, 123},
   {SubstanceTPMethodType::standard_entropy_cp_integration, 200}
 };
 
-- 
2.43.0


From 27caa3744acb5afca00babcfce18a269349e8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 36/63] fix: model parameters of a record that were never read,
 and the unit of those of the Holland-Powell aqueous model

---
 ThermoFun/Common/ParseJsonToData.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index e2940aa..a51be2a 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -363,7 +363,9 @@ auto thermoParamSubst(const json &j, std::string prop_name, ThermoParametersSubs
     std::string kbuf;
 
     read_values_units(j, "eos_akinfiev_diamond_coeffs", ps.Cp_nonElectrolyte_coeff, {"1", "(cm^3)/g", "(cm^3*K^0.5)/g"});
-    // ps.volume_BirchM_coeff = read_values_units(j, "eos_birch_murnaghan_coeffs", {});
+    read_values_units(j, "eos_birch_murnaghan_coeffs", ps.volume_BirchM_coeff, {"1/K", "1/K^2", "K", "1", "1", "MPa", "MPa/K", "1", "1/MPa"});
+    read_values_units(j, "m_volume_fpt_coeffs", ps.volume_coeff, {"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"});
+    read_values_units(j, "eos_churakov_gottschalk_coeffs", ps.empirical_coeff, {});
     read_values_units(j, "eos_gas_crit_props", ps.critical_parameters, {"K", "bar", "1", "1"});
     read_values_units(j, "eos_hkf_coeffs", ps.HKF_parameters, {"cal/(mol*bar)", "cal/mol", "(cal*K)/(mol*bar)", "(cal*K)/mol", "cal/(mol*K)", "(cal*K)/mol", "cal/mol"});
 
@@ -390,8 +392,12 @@ auto thermoParamSubst(const json &j, std::string prop_name, ThermoParametersSubs
     if (ph.size() > 0)
         ps.phase_transition_prop.push_back(ph);
     read_values_units(j, "m_landau_phase_trans_props", ps.m_landau_phase_trans_props, {"degC", "J/(mol*K)", "J/bar"});
-    read_values_units(j, "solute_holland_powell98_coeff", ps.solute_holland_powell98_coeff, {"kJ/(mol*K^2)"});
-    // ps.phase_transition_prop_Berman.push_back(read_values_units(j, "", {});
+    read_values_units(j, "solute_holland_powell98_coeff", ps.solute_holland_powell98_coeff, {"J/(mol*K^2)"});
+    read_values_units(j, "solute_holland_powell98_coeffs", ps.solute_holland_powell98_coeff, {"J/(mol*K^2)"});
+    std::vector<double> pb;
+    read_values_units(j, "m_berman_phase_trans_props", pb, {});
+    if (pb.size() > 0)
+        ps.phase_transition_prop_Berman.push_back(pb);
 }
 
 auto thermoParamReac(const json &j, ThermoParametersReaction &pr) -> void
@@ -400,8 +406,7 @@ auto thermoParamReac(const json &j, ThermoParametersReaction &pr) -> void
     std::string kbuf;
 
     read_values_units(j, "logk_ft_coeffs", pr.reaction_logK_fT_coeff, {"1", "1/K", "K", "1", "K^2", "1/K^2", "K^0.5"});
-    //    if (j.contains("logk_pt_values") && !j["logk_pt_values"]["values"].is_null())
-    //        pr.logK_TP_array = j["logk_pt_values"]["values"].get<vector<double>>();
+    read_values_units(j, "logk_pt_values", pr.logK_TP_array, {});
     read_values_units(j, "dr_heat_capacity_ft_coeffs", pr.reaction_Cp_fT_coeff, {"J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)"});
     read_values_units(j, "dr_volume_fpt_coeffs", pr.reaction_V_fT_coeff, {"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"});
     read_values_units(j, "dr_ryzhenko_coeffs", pr.reaction_RB_coeff, {"1", "1", "1"});
-- 
2.43.0


From 056613bdf115a8fd1687248398c55ebc9379acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 37/63] fix: the pressure limits of a record were not read

---
 ThermoFun/Common/ParseJsonToData.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index a51be2a..9cee782 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -582,6 +582,12 @@ auto parseSubstance(const std::string &data) -> Substance
                 if (j["limitsTP"].contains("upperT"))
                     if (!j["limitsTP"]["upperT"].is_null())
                         s.setUpperT(j["limitsTP"]["upperT"].get<double>());
+                if (j["limitsTP"].contains("lowerP"))
+                    if (!j["limitsTP"]["lowerP"].is_null())
+                        s.setLowerP(j["limitsTP"]["lowerP"].get<double>());
+                if (j["limitsTP"].contains("upperP"))
+                    if (!j["limitsTP"]["upperP"].is_null())
+                        s.setUpperP(j["limitsTP"]["upperP"].get<double>());
             }
 
         if (j.contains("Tst"))
@@ -651,6 +657,12 @@ auto parseReaction(const std::string &data) -> Reaction
                 if (j["limitsTP"].contains("upperT"))
                     if (!j["limitsTP"]["upperT"].is_null())
                         r.setUpperT(j["limitsTP"]["upperT"].get<double>());
+                if (j["limitsTP"].contains("lowerP"))
+                    if (!j["limitsTP"]["lowerP"].is_null())
+                        r.setLowerP(j["limitsTP"]["lowerP"].get<double>());
+                if (j["limitsTP"].contains("upperP"))
+                    if (!j["limitsTP"]["upperP"].is_null())
+                        r.setUpperP(j["limitsTP"]["upperP"].get<double>());
             }
 
         if (j.contains("Tst"))
-- 
2.43.0


From 2053825df556c4f03a2573bf9ae9149fc02163e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:06 +0000
Subject: [PATCH 38/63] fix: an expansivity given in 1/K was handed to the
 volume models a factor of 1e5 too small

---
 ThermoFun/Common/ParseJsonToData.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 9cee782..53da149 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -150,7 +150,6 @@ auto read_values_units(const json& j, const std::string& data, std::vector<doubl
 auto read_value_unit(const json& j, const std::string& data, double& value, const std::string& unit_to) -> void
 {
     std::string unit_from = unit_to;
-    double factor = 1.0;
 
     if (j.contains(data)) {
         const auto& entry = j[data];
@@ -161,16 +160,14 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
         // Temporary fixes
         if (data == "m_expansivity" && unit_from == "kbar") {
             unit_from = "1/K";
-            factor = 1e5;
         }
 
         if (data == "m_compressibility" && unit_from == "1e-05/K") {
             unit_from = "kbar";
-            factor = 1;
         }
 
         if (entry.contains("values") && entry["values"].is_array() && !entry["values"].empty() && !entry["values"][0].is_null()) {
-            value = units::convert(entry["values"][0].get<double>() * factor, unit_from, unit_to);
+            value = units::convert(entry["values"][0].get<double>(), unit_from, unit_to);
         }
     }
 }
@@ -352,6 +349,7 @@ auto getTPMethods(const json &j, Substance &s) -> void
     }
 
     read_value_unit(j, "m_expansivity", ps.isobaric_expansivity, "1/K");
+    ps.isobaric_expansivity *= 1e5; // the models take it in 1e-5/K
     read_value_unit(j, "m_compressibility", ps.isothermal_compresibility, "kbar");
 
     s.setThermoParameters(ps);
-- 
2.43.0


From 2ca8a9ffec9c7b7e785b1c99811956639ac36a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:01 +0000
Subject: [PATCH 39/63] fix: powers of the bar were units of temperature, and
 the tesla was Wb*m^2

---
 ThermoFun/Common/Units.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index f08d55c..3f23c96 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -359,7 +359,7 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"webers"       , {{1, "Wb" , 1}}},
 
     // Magnetic Flux Density Units
-    {"T"            , {{1 , "Wb" , 1}, {1 , "m", 2}}},
+    {"T"            , {{1 , "Wb" , 1}, {1 , "m", -2}}},
     {"gauss"        , {{0.0001 , "T", 1}}},
     {"tesla"        , {{1, "T", 1}}},
     {"teslas"       , {{1, "T", 1}}},
@@ -395,11 +395,11 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"K^0.5"        , {{1, "K", 0.5}}},
     {"K^1.5"        , {{1, "K", 1.5}}},
 
-    {"bar^2"          , {{1, "K", 2}}},
-    {"bar^3"          , {{1, "K", 3}}},
-    {"bar^4"          , {{1, "K", 4}}},
-    {"bar^5"          , {{1, "K", 5}}},
-    {"bar^0.5"        , {{1, "K", 0.5}}}
+    {"bar^2"          , {{1, "bar", 2}}},
+    {"bar^3"          , {{1, "bar", 3}}},
+    {"bar^4"          , {{1, "bar", 4}}},
+    {"bar^5"          , {{1, "bar", 5}}},
+    {"bar^0.5"        , {{1, "bar", 0.5}}}
 };
 
 map<string, TemperatureUnit> temperatureUnitsMap =
-- 
2.43.0


From 64f606b61944d4ce9d6be2135ece98695285e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:01 +0000
Subject: [PATCH 40/63] fix: units differing in the temperature unit, or by a
 number, of the same dimension were not convertible

---
 ThermoFun/Common/Units.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 3f23c96..99d0a59 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -454,9 +454,17 @@ double convertTemperature(double value, const string& from, const string& to)
     return fromKelvin(toKelvin(value, from), to);
 }
 
+// the size of a degree of a temperature unit in kelvin
+double degree(const string& symbol)
+{
+    if(symbol == "K") return 1.0;
+    const auto& unit = temperatureUnitsMap[symbol];
+    return degree(unit.symbol)/unit.factor;
+}
+
 double factor(const string& symbol)
 {
-    if(temperatureUnitsMap.count(symbol)) return 1.0;
+    if(temperatureUnitsMap.count(symbol)) return degree(symbol);
     checkDerivedUnit(symbol);
     const auto& units = derivedUnitsMap[symbol];
     if(units.front().symbol == symbol) return pow(units.front().factor, units.front().power);
@@ -486,7 +494,8 @@ void removeZero(map<string, double>& res)
 
 void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
-    if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
+    if(temperatureUnitsMap.count(symbol)) { res["K"] += multpower; return; }
+    if(symbol == "1") return; // has no dimension
     checkDerivedUnit(symbol);
     const auto& units = derivedUnitsMap[symbol];
     if(units.front().symbol == symbol) res[units.front().symbol] += units.front().power * multpower;
-- 
2.43.0


From cd0eb2c22fcfbd2e83ea87cb97f70544b2705294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:01 +0000
Subject: [PATCH 41/63] fix: a unit string with a missing unit crashed, and one
 with a missing operator was read as another unit

---
 ThermoFun/Common/Units.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 99d0a59..f136e51 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -554,9 +554,14 @@ inline void unmatchedParenthesisError()
     throw std::runtime_error("*** Error *** there is unmatched parenthesis in the unit string.");
 }
 
+inline void missingUnitError(const string& symbol)
+{
+    throw std::runtime_error("*** Error *** there is a unit or an operator missing in the unit string '" + symbol + "'.");
+}
+
 std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
 {
-    if(symbol.empty()) return nullptr;
+    if(symbol.empty() || pos >= symbol.size()) missingUnitError(symbol);
 
     if(symbol[pos] == ')')
     {
@@ -565,6 +570,7 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
         if(i > 0)
         {
             string op_str    = symbol.substr(i-1, 1);
+            if(op_str != "*" && op_str != "/") missingUnitError(symbol);
             string left_str  = symbol.substr(0, i-1);
             string right_str = symbol.substr(i+1, pos-i-1);
 
-- 
2.43.0


From e9fd6d44b5d7fd8f87071bf6975c2a301fc6b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 42/63] fix: adding a map of records to a database removed the
 records already in it

---
 ThermoFun/Database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index e95ebb6..6dde130 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -118,13 +118,13 @@ struct Database::Impl
 
     auto addMapElements(const ElementsMap& elements) -> void
     {
-        elements_map = elements;
+        elements_map.insert(elements.begin(), elements.end());
         setDBElements(elements_map);
     }
 
     auto addMapSubstances(const SubstancesMap& substances) -> void
     {
-        substances_map = substances;
+        substances_map.insert(substances.begin(), substances.end());
     }
 
     auto addReaction(const Reaction& reaction) -> void
@@ -140,7 +140,7 @@ struct Database::Impl
 
     auto addMapReactions(const ReactionsMap& reactions) -> void
     {
-        reactions_map = reactions;
+        reactions_map.insert(reactions.begin(), reactions.end());
     }
 
     auto getElements() const -> std::vector<Element>
-- 
2.43.0


From a8905b1402af2fb58370b789dfd1d946c00d7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 43/63] fix: elements replaced by appended data were not used
 in formulas

---
 ThermoFun/Database.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index 6dde130..4dc27f1 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -412,18 +412,14 @@ auto Database::operator=(Database other) -> Database&
 
 auto Database::appendData(std::string filename) -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromFile(filename);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
+    pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromJSONs(jsonRecords, _label);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
+    pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::addElement(const Element& element) -> void
-- 
2.43.0


From b925ee35aebd50f9cd995549896c8d2d31d1c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 44/63] fix: the order of elements was not an order when
 isotope and valence disagree

---
 ThermoFun/Element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Element.cpp b/ThermoFun/Element.cpp
index b11e98e..8415321 100644
--- a/ThermoFun/Element.cpp
+++ b/ThermoFun/Element.cpp
@@ -226,7 +226,7 @@ auto operator<(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() < rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() < rhs.valence());
             }
         }
@@ -250,7 +250,7 @@ auto operator>(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() > rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() > rhs.valence());
             }
         }
-- 
2.43.0


From 376edb3adc356d8a78c0a76d83dba88e198dd37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 45/63] fix: records before the one that hands back the
 saturation pressure were calculated at zero pressure, and listed at the
 saturation pressure

---
 ThermoFun/Batch/ThermoBatch.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4e73029..71b009a 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -3,6 +3,7 @@
 // C++ includes
 #include <algorithm>
 #include <fstream>
+#include <tuple>
 // ThermoFun includes
 #include "ThermoProperties.h"
 #include "Database.h"
@@ -260,6 +261,9 @@ struct ThermoBatch::Impl
 
         results.resize(j_size * i_size);
 
+        // records calculated at P = 0: index, pair, symbol
+        std::vector<std::tuple<unsigned, unsigned, std::string>> atZeroPressure;
+
         for (unsigned j=0; j<j_size; j++)
         {
             for (unsigned i=0; i<i_size; i++)
@@ -276,11 +280,9 @@ struct ThermoBatch::Impl
                     symbol = symbols[j];
                 }
 
-                switch(calculation) {
-                case forSUBSTANCE: calculateSubstProp(T, P, symbol, (j_size*i)+(j)); break;
-                case forREACTION: calculateReactProp (T, P, symbol, (j_size*i)+(j)); break;
-                case forSOLVENT: calculateSolventProp(T, P, symbol, (j_size*i)+(j)); break;
-                }
+                calculateProp(calculation, T, P, symbol, (j_size*i)+(j));
+                if (P == 0.0)
+                    atZeroPressure.emplace_back((j_size*i)+(j), outSettings.loopOverTPpairsFirst ? j : i, symbol);
 
                 // in case of Psat = 0 updating with real value
                 if (outSettings.loopOverTPpairsFirst)
@@ -294,6 +296,14 @@ struct ThermoBatch::Impl
                 }
             }
         }
+        // where another record found the saturation pressure, it holds for all records of the pair
+        for (const auto& [index, pair, name] : atZeroPressure)
+            if (tpPairs[pair][1] != 0.0)
+            {
+                T = units::convert(tpPairs[pair][0], unitT, defUnitT);
+                P = units::convert(tpPairs[pair][1], unitP, defUnitP);
+                calculateProp(calculation, T, P, name, index);
+            }
         auto tpp = tpPairs;
         addTPpairs(tpp);
     }
@@ -317,6 +327,15 @@ struct ThermoBatch::Impl
     }
 
     // Calculate functions
+    auto calculateProp( Calculation calculation, double T, double &P, std::string symbol, unsigned index ) -> void
+    {
+        switch(calculation) {
+        case forSUBSTANCE: calculateSubstProp(T, P, symbol, index); break;
+        case forREACTION: calculateReactProp (T, P, symbol, index); break;
+        case forSOLVENT: calculateSolventProp(T, P, symbol, index); break;
+        }
+    }
+
     auto calculateSubstProp( double T, double &P, std::string symbol, unsigned index ) -> void
     {
             results[index] = selectResultsSubst(thermo.thermoPropertiesSubstance(T, P, symbol));
-- 
2.43.0


From acb6de3cb3e1a790492206ffa068a52e2c7dd62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 46/63] fix: a temperature or pressure range contained a point
 beyond its end

---
 ThermoFun/Batch/ThermoBatch.cpp | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 71b009a..4e518cf 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -144,28 +144,21 @@ struct ThermoBatch::Impl
                     addTPpair(c,r);
     }
 
+    /// The points min, min + step, ... up to and including max
+    auto rangePoints (double min, double max, double step) const -> std::vector<double>
+    {
+        std::vector<double> points = {min};
+        if (step > 0.0)
+            for (double n = 1.0; min + n*step <= max + 1e-9*step; n += 1.0)
+                points.push_back(min + n*step);
+        return points;
+    }
+
     auto addTPpairs (const double &Tmin, const double &Tmax, const double &Tstep,
                      const double &Pmin, const double &Pmax, const double &Pstep) -> void
     {
         clearTPpairs();
-        double t = Tmin-Tstep;
-        double p = Pmin-Pstep;
-        std::vector<double> temperatures;
-        std::vector<double> pressures;
-
-        do
-        {
-            p = p + Pstep;
-            pressures.push_back(p);
-        } while (p < Pmax);
-
-        do
-        {
-            t = t + Tstep;
-            temperatures.push_back(t);
-        } while (t < Tmax);
-
-        addTPpairs(temperatures, pressures);
+        addTPpairs(rangePoints(Tmin, Tmax, Tstep), rangePoints(Pmin, Pmax, Pstep));
     }
 
     auto addTPpairs (const vvd &tpPairs) -> void
-- 
2.43.0


From c3861dc725024df3d2492130afbca9cd32e45bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 47/63] fix: a property that the record does not have shifted
 the values after it into other columns

---
 ThermoFun/Batch/ThermoBatch.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4e518cf..6db19a8 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -9,6 +9,7 @@
 #include "Database.h"
 #include "ThermoEngine.h"
 #include "Common/Units.hpp"
+#include "Common/Exception.h"
 
 #if _MSC_VER >= 1929
 #include <array>
@@ -176,6 +177,7 @@ struct ThermoBatch::Impl
         vThScalar resultsSubst;
         for( auto name : properties)
         {
+            const auto size = resultsSubst.size();
             if (name == "gibbs_energy")       {resultsSubst.push_back(tps.gibbs_energy);}
             if (name == "helmholtz_energy")   {resultsSubst.push_back(tps.helmholtz_energy);}
             if (name == "internal_energy")    {resultsSubst.push_back(tps.internal_energy);}
@@ -184,6 +186,8 @@ struct ThermoBatch::Impl
             if (name == "volume")             {resultsSubst.push_back(tps.volume);}
             if (name == "heat_capacity_cp")   {resultsSubst.push_back(tps.heat_capacity_cp);}
             if (name == "heat_capacity_cv")   {resultsSubst.push_back(tps.heat_capacity_cv);}
+            if (resultsSubst.size() == size)
+                funError("Unknown property", "`" + name + "` is not a property of a substance", __LINE__, __FILE__);
         }
         return resultsSubst;
     }
@@ -193,6 +197,7 @@ struct ThermoBatch::Impl
         vThScalar resultsSolvent;
         for( auto name : properties)
         {
+            const auto size = resultsSolvent.size();
             if (name == "density")        {resultsSolvent.push_back(ps.density);}
             if (name == "densityT")       {resultsSolvent.push_back(ps.densityT);}
             if (name == "densityP")       {resultsSolvent.push_back(ps.densityP);}
@@ -215,6 +220,8 @@ struct ThermoBatch::Impl
             if (name == "bornN")          {resultsSolvent.push_back(eps.bornN);}
             if (name == "bornU")          {resultsSolvent.push_back(eps.bornU);}
             if (name == "bornX")          {resultsSolvent.push_back(eps.bornX);}
+            if (resultsSolvent.size() == size)
+                funError("Unknown property", "`" + name + "` is not a property of a solvent", __LINE__, __FILE__);
         }
         return resultsSolvent;
     }
@@ -224,6 +231,7 @@ struct ThermoBatch::Impl
         vThScalar resultsReac;
         for( auto name : properties)
         {
+            const auto size = resultsReac.size();
             if (name == "reaction_gibbs_energy")       {resultsReac.push_back(tpr.reaction_gibbs_energy);}
             if (name == "reaction_helmholtz_energy")   {resultsReac.push_back(tpr.reaction_helmholtz_energy);}
             if (name == "reaction_internal_energy")    {resultsReac.push_back(tpr.reaction_internal_energy);}
@@ -234,6 +242,8 @@ struct ThermoBatch::Impl
             if (name == "reaction_heat_capacity_cv")   {resultsReac.push_back(tpr.reaction_heat_capacity_cv);}
             if (name == "logKr")                       {resultsReac.push_back(tpr.log_equilibrium_constant);}
             if (name == "lnKr")                        {resultsReac.push_back(tpr.ln_equilibrium_constant);}
+            if (resultsReac.size() == size)
+                funError("Unknown property", "`" + name + "` is not a property of a reaction", __LINE__, __FILE__);
         }
         return resultsReac;
     }
-- 
2.43.0


From 5ff604c793b1d90da3ec6755d5e1957fc7afa642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 48/63] fix: property grids put values under other temperatures
 and pressures when the pairs are not a full grid

---
 ThermoFun/Batch/OutputBatch.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 6783832..01797d7 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -319,8 +319,6 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     if (pimpl->api.outputSettings().isFixed) pimpl->fProperties << std::fixed;
     if (pimpl->api.outputSettings().isScientific) pimpl->fProperties << std::scientific;
 
-    size_t count = 0;
-
     if (outSettings.loopTemperatureThenPressure)
     {
         columns          = pressures;
@@ -332,23 +330,26 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     for (unsigned i=0; i<symbols.size(); i++)
         for (auto r : rows)
         {
-            if (count == results.size())
-                break;
             pimpl->fProperties << find_and_replace(symbols[i], s, "_");
             pimpl->fProperties << std::setprecision(digits.at(rowData));
             pimpl->fProperties << s << r;
 
             for(auto c : columns)
             {
-                auto result = results[count][index_property];
+                const std::vector<double> pair = outSettings.loopTemperatureThenPressure ? std::vector<double>{r, c} : std::vector<double>{c, r};
+                const size_t k = std::find(tpPairs.begin(), tpPairs.end(), pair) - tpPairs.begin();
+                if (k == tpPairs.size()) // not calculated at this T and P
+                {
+                    pimpl->fProperties << s << "NaN";
+                    continue;
+                }
+                auto result = results[(tpPairs.size()*i)+k][index_property];
                 pimpl->fProperties << std::setprecision(digits.at(property));
 
                 if (result.sta.first == Reaktoro_::Status::notdefined && outSettings.writeNaNifNotDefinedValue)
                     pimpl->fProperties << s << "NaN";
                 else
                     pimpl->fProperties << s << units::convert(result.val, fromUnits.at(property), toUnits.at(property));
-                    
-                count++;
             }
             pimpl->fProperties << std::endl;
         }
-- 
2.43.0


From 4ef45be9281ea74aff207ef8f960327e00d2e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 49/63] fix: a result file was written in the notation of the
 file before it

---
 ThermoFun/Batch/OutputBatch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 01797d7..54a8b66 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -189,6 +189,7 @@ auto Output::foutResults()-> void
     else
     {j_size = symbols.size(); i_size = tpPairs.size();}
 
+    pimpl->fProperties << std::defaultfloat;
     if (pimpl->api.outputSettings().isFixed) pimpl->fProperties << std::fixed;
     if (pimpl->api.outputSettings().isScientific) pimpl->fProperties << std::scientific;
 
@@ -247,6 +248,7 @@ auto Output::foutResultsTransposed()-> void
     else
     {j_size = properties.size(); i_size = tpPairs.size();}
 
+    pimpl->fProperties << std::defaultfloat;
     if (pimpl->api.outputSettings().isFixed) pimpl->fProperties << std::fixed;
     if (pimpl->api.outputSettings().isScientific) pimpl->fProperties << std::scientific;
 
@@ -316,6 +318,7 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
         return;
     }
 
+    pimpl->fProperties << std::defaultfloat;
     if (pimpl->api.outputSettings().isFixed) pimpl->fProperties << std::fixed;
     if (pimpl->api.outputSettings().isScientific) pimpl->fProperties << std::scientific;
 
-- 
2.43.0


From 48464ba727f6c9c25adfc8b51255d1d6f368150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 50/63] fix: the Born function X was written twice, shifting
 the columns after it

---
 ThermoFun/Common/OutputToCSV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index d686b5a..ece7078 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -148,7 +148,7 @@ auto OutputToCSV::writeElectroPropertiesSolvent (std::string symbol, double T, d
 
     fElectroPropertiesSolvent << symbol << c << T << c << P << c <<
                                  eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c << eps.bornX     << c <<
-                                 eps.bornX     << c << eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
+                                 eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
                                  eps.epsilonP  << c << eps.epsilonPP << c << eps.epsilonT  << c << eps.epsilonTP << c <<
                                  eps.epsilonTT << std::endl;
 }
-- 
2.43.0


From 759033a63becb01074ac767f50774920450b8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 51/63] fix: PRSV residual enthalpy was wrong when k1, k2 or k3
 is used, and not a number at the critical temperature

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 3ae47b4..d62b96a 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -486,7 +486,7 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 /// calculates fugacities and residual functions of pure fluid species
 long int TPRSVcalc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, aprsv, bprsv, alph, da, d2a, k, A, B, a2, a1, a0,
+	double aprsv, bprsv, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -498,9 +498,6 @@ long int TPRSVcalc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	aprsv = Pureparm[i][0];
 	bprsv = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -552,12 +549,10 @@ long int TPRSVcalc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = aprsv/((0.457235)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (aprsv-Tk*da)/(bprsv*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
-- 
2.43.0


From fa88c7dfaa0e44e902bad7652f89fd0e0bf36aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 52/63] fix: PRSV temperature derivatives of a(T) left out k2
 and k3

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index d62b96a..26e5e54 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -453,7 +453,7 @@ long int TPRSVcalc::FugacityPT( long int i, double *EoSparam )
 long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, double k2, double k3,
 		double &apure, double &bpure, double &da, double &d2a )
 {
-	double Tred, k0, k, alph, ac, sqa, dsqa, d2sqa;
+	double Tred, k0, k, alph, ac, sqa, dsqa, d2sqa, sTr, w, dw, u, du, d2u;
 
 	Tred = Tk/Tcrit;
 	k0 = 0.378893 + 1.4897153*omg - 0.17131848*pow(omg,2.) + 0.0196554*pow(omg,3.);
@@ -469,13 +469,16 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 	apure = alph*ac;
 	bpure = (0.077796)*R_CONST*Tcrit/Pcrit;
 	sqa = 1.+k*(1.-sqrt(Tred));
-	// dsqa = (-1.)*k0/(2.*sqrt(Tk*Tcrit)) - 1.7*k1/Tcrit + 2.*k1*Tk/(pow(Tcrit,2.));  // extend dA/dT for k2, k3
-	dsqa = ( k1*(0.7-Tred)/(2.*sqrt(Tred)*Tcrit) - k1*(1.+sqrt(Tred))/Tcrit ) * (1.-sqrt(Tred))
-				- (k0 + k1*(1.+sqrt(Tred))*(0.7-Tred))/(2*sqrt(Tred)*Tcrit);
+	// derivatives of sqa = 1 + k0*(1-sTr) + (k1 + k2*(k3-Tr)*(1-sTr))*(1-Tr)*(0.7-Tr)
+	sTr = sqrt(Tred);
+	w = (1.-Tred)*(0.7-Tred);
+	dw = 2.*Tred - 1.7;
+	u = k1 + k2*(k3-Tred)*(1.-sTr);
+	du = k2*( -(1.-sTr) - (k3-Tred)/(2.*sTr) );
+	d2u = k2*( 1./sTr + (k3-Tred)/(4.*pow(Tred,1.5)) );
+	dsqa = ( -k0/(2.*sTr) + du*w + u*dw )/Tcrit;
 	da = 2.*ac*(sqa*dsqa);
-	d2sqa = ( - (k1*(0.7-Tred))/(4.*pow(Tred,1.5)*pow(Tcrit,2.)) - k1/(sqrt(Tred)*pow(Tcrit,2.)) ) * (1.-sqrt(Tred))
-				+ ( - k1*(0.7-Tred)/(2.*sqrt(Tred)*Tcrit) - k1*(1.+sqrt(Tred))/Tcrit ) / (sqrt(Tred)*Tcrit)
-				+ ( k0 + k1*(1.+sqrt(Tred))*(0.7-Tred) ) / (4.*pow(Tred,1.5)*pow(Tcrit,2.));
+	d2sqa = ( k0/(4.*pow(Tred,1.5)) + d2u*w + 2.*du*dw + 2.*u )/pow(Tcrit,2.);
 	d2a = 2.*ac*(dsqa*dsqa + sqa*d2sqa);
 
 	return 0;
-- 
2.43.0


From 0c473fa145eca02922420e66fb7601fe621a6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 53/63] fix: PR78 residual enthalpy was not a number at the
 critical temperature and wrong where the alpha function has passed its
 minimum

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 26e5e54..0a3b71d 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -3689,7 +3689,7 @@ long int TPR78calc::AB( double Tcrit, double Pcrit, double omg, double /*N*/,
 /// Calculates fugacities and residual functions of pure fluid species
 long int TPR78calc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, apr, bpr, alph, da, d2a, k, A, B, a2, a1, a0,
+	double apr, bpr, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -3701,9 +3701,6 @@ long int TPR78calc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	apr = Pureparm[i][0];
 	bpr = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -3755,12 +3752,10 @@ long int TPR78calc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = apr/((0.457235529)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (apr-Tk*da)/(bpr*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
-- 
2.43.0


From d2d152b2a7a7a31aa3d4a98df7e3215e61dcb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:43 +0000
Subject: [PATCH 54/63] fix: the cubic solvers of the gas models gave
 not-a-number where the inflection point is the root

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 0a3b71d..114c062 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -598,7 +598,7 @@ long int TPRSVcalc::Cardano( double a2, double a1, double a0, double &z1, double
 	}
 	else  // one real root
 	{
-		ac = (-1.)*rc/fabs(rc)*pow(fabs(rc)+sqrt(rc2-q3), 1./3.);
+		ac = ((rc < 0.) ? 1. : -1.)*pow(fabs(rc)+sqrt(rc2-q3), 1./3.);
 		if (ac != 0.)
 			bc = q/ac;
 		else
@@ -2990,7 +2990,7 @@ long int TSRKcalc::Cardano( double a2, double a1, double a0, double &z1, double
 
 	else  // one real root
 	{
-		ac = (-1.)*rc/fabs(rc)*pow(fabs(rc)+sqrt(rc2-q3), 1./3.);
+		ac = ((rc < 0.) ? 1. : -1.)*pow(fabs(rc)+sqrt(rc2-q3), 1./3.);
 		if (ac != 0.)
 			bc = q/ac;
 		else
@@ -3798,7 +3798,7 @@ long int TPR78calc::Cardano( double a2, double a1, double a0, double &z1, double
 	}
 	else  // one real root
 	{
-		ac = (-1.)*rc/fabs(rc)*pow(fabs(rc)+sqrt(rc2-q3), 1./3.);
+		ac = ((rc < 0.) ? 1. : -1.)*pow(fabs(rc)+sqrt(rc2-q3), 1./3.);
 		if (ac != 0.)
 			bc = q/ac;
 		else
@@ -4841,7 +4841,7 @@ long int TCORKcalc::Cardano(double cb, double cc, double cd, double &v1, double
 
     if ( (cp2-cq3)>0. )  // one real root
     {
-        cr = -cp/fabs(cp)*pow(fabs(cp)+sqrt(cp2-cq3),1./3.);
+        cr = ((cp < 0.) ? 1. : -1.)*pow(fabs(cp)+sqrt(cp2-cq3),1./3.);
         if (cr!=0)
         {
             v1 = cr + cq/cr - cb/3.;
-- 
2.43.0


From 66f86e6868794061f285189f9f6ef1aaabe0b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:43 +0000
Subject: [PATCH 55/63] fix: CORK used the wrong sign of T - 673 in a(T) of
 water between 673 and 695 K, and in its derivative everywhere above 673 K

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 114c062..62c4155 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4451,8 +4451,8 @@ long int TCORKcalc::FugacityH2O( long int j )
     {
         phState = 1;
         a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
-        da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-        d2a = 2.*a5 + 6.*a6*(673.-Tk);
+        da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+        d2a = 2.*a5 + 6.*a6*(Tk-673.);
         VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
     }
 
@@ -4470,9 +4470,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
         }
@@ -4488,9 +4488,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g1);
 
@@ -4503,9 +4503,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g2);
 
@@ -4518,9 +4518,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, g3);  // corrected from (phState, Pkb, psat ...)
             fc = g1/g2*g3;  // this formula needs checking
-- 
2.43.0


From 48dfaae9db128fc8e4d419b6b3b88a6fb7486c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:43 +0000
Subject: [PATCH 56/63] fix: CORK took a negative root as the volume of liquid
 water at very high pressure

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 62c4155..cf60d1d 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4804,7 +4804,7 @@ long int TCORKcalc::VolumeFugacity( long int phState, double pp, double p0, doub
             vmrk = v3;
         if ( (v2<vmrk) && (v2>0.) )
             vmrk = v2;
-        if ( (v3<vmrk) && (v2>0.) )
+        if ( (v3<vmrk) && (v3>0.) )
             vmrk = v3;
     }
 
-- 
2.43.0


From 452ada95ded6c6146cf3d35aa1e613d9be3f05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:30 +0000
Subject: [PATCH 57/63] fix: CORK residual enthalpy left out the virial part
 and, for liquid water, the steps at saturation

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 33 ++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index cf60d1d..01b25dc 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4419,7 +4419,7 @@ long int TCORKcalc::FugacityH2O( long int j )
 {
     long int phState;   // 1: vapor, 2: liquid
     double a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a, da, d2a, b, c0, c1, c,
-            d0, d1, d, e0, e, /*dc, dd,*/ p0, Psat, vc, fc, v, g1, g2, g3, rho, z;
+            d0, d1, d, e0, e, /*dc, dd,*/ p0, Psat, dPsat, vc, fc, v, g1, g2, g3, rho, dp, vvir, hvir, hsat = 0.;
     double grs, hrs, srs, cprs, cvrs, dpr, dprr, dpt, dptt, dprt,
             drt, drtt, drp, drpp, drtp, dpv, dvt;
 
@@ -4446,6 +4446,11 @@ long int TCORKcalc::FugacityH2O( long int j )
     //dd = d1;
     p0 = 2.;
 
+    // residual enthalpy of the MRK part
+    auto hmrk = [&]( double vm, double pp, double am, double dam ) {
+        return ( (pp*vm/(RR*Tk)-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*dam-(3./2.)*am/pow(Tk,0.5))*log(vm/(vm+b)) )*R_CONST*Tk;
+    };
+
     // molar volume and fugacity coefficient
     if (Tk > 695.)   // supercritical fluid phase
     {
@@ -4459,6 +4464,7 @@ long int TCORKcalc::FugacityH2O( long int j )
     else   // subcritical region
     {
         Psat = (-13.627e-3) + (7.29395e-7)*pow(Tk,2.) - (2.34622e-9)*pow(Tk,3.) + (4.83607e-15)*pow(Tk,5.);
+        dPsat = 2.*(7.29395e-7)*Tk - 3.*(2.34622e-9)*pow(Tk,2.) + 5.*(4.83607e-15)*pow(Tk,4.);
         if (Pkb < Psat)
         {
             phState = 1;   // vapor
@@ -4493,6 +4499,7 @@ long int TCORKcalc::FugacityH2O( long int j )
                 d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g1);
+            hsat = hmrk(v, Psat, a, da) - Tk*dPsat*v*(1000.);
 
             phState = 2; // liquid phase at Psat
             if (Tk < 673.)
@@ -4508,6 +4515,7 @@ long int TCORKcalc::FugacityH2O( long int j )
                 d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g2);
+            hsat = hsat - hmrk(v, Psat, a, da) + Tk*dPsat*v*(1000.);
 
             phState = 2; // fluid phase at Pkb
             if (Tk < 673.)
@@ -4546,10 +4554,14 @@ long int TCORKcalc::FugacityH2O( long int j )
             + (dprt - dpt*dprr*pow(dpr,-1.))*pow(dpr,-2.)*dpt;
     drtp = - pow(dpr,-1.) - (dprt-dpr)*pow(dpr,-2.) + dprr*dpt*pow(dpr,-3.);
 
+    // virial part
+    dp = ( Pkb > p0 ) ? Pkb-p0 : 0.;
+    vvir = c*sqrt(dp) + d*dp + e*sqrt(sqrt(dp));
+    hvir = ((2./3.)*c0*dp*sqrt(dp) + d0/2.*pow(dp,2.) + (4./5.)*e0*dp*sqrt(sqrt(dp)))*(1000.);
+
     // thermodynamic properties (MRK part)
-    z = (Pkb*vc)/(RR*Tk);
     grs = R_CONST*Tk*log(fc);
-    hrs = ( (z-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vc/(vc+b)) )*R_CONST*Tk;
+    hrs = hmrk(vc-vvir, Pkb, a, da) + hvir + hsat;
     srs = (hrs-grs)/Tk;
     cvrs = ( -1./(b*RR)*(-da/pow(Tk,0.5)+pow(Tk,0.5)*d2a+(3.*a)/(4.*pow(Tk,1.5))))*log(vc/(vc+b) )*R_CONST;
     dpv = (- RR*Tk/pow((vc-b),2.) + a/(pow(vc,2.)*(vc+b)*pow(Tk,0.5))
@@ -4585,7 +4597,7 @@ long int TCORKcalc::FugacityH2O( long int j )
 long int TCORKcalc::FugacityCO2( long int j )
 {
     long int phState;
-    double a0, a1, a2, a, b, c0, c1, c, d0, d1, d, e0, e, da, d2a, p0, vc, fc, rho, z;
+    double a0, a1, a2, a, b, c0, c1, c, d0, d1, d, e0, e, da, d2a, p0, vc, fc, rho, dp, vvir, hvir;
     double grs, hrs, srs, cprs, cvrs, dpr, dprr, dpt, dptt, dprt,
             drt, drtt, drp, drpp, drtp, dpv, dvt;
 
@@ -4606,6 +4618,11 @@ long int TCORKcalc::FugacityCO2( long int j )
     e = e0;
     p0 = 5.;
 
+    // residual enthalpy of the MRK part
+    auto hmrk = [&]( double vm, double pp, double am, double dam ) {
+        return ( (pp*vm/(RR*Tk)-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*dam-(3./2.)*am/pow(Tk,0.5))*log(vm/(vm+b)) )*R_CONST*Tk;
+    };
+
     // molar volume and fugacity coefficient
     phState = 1;
     VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
@@ -4629,10 +4646,14 @@ long int TCORKcalc::FugacityCO2( long int j )
             + (dprt - dpt*dprr*pow(dpr,-1.))*pow(dpr,-2.)*dpt;
     drtp = - pow(dpr,-1.) - (dprt-dpr)*pow(dpr,-2.) + dprr*dpt*pow(dpr,-3.);
 
+    // virial part
+    dp = ( Pkb > p0 ) ? Pkb-p0 : 0.;
+    vvir = c*sqrt(dp) + d*dp + e*sqrt(sqrt(dp));
+    hvir = ((2./3.)*c0*dp*sqrt(dp) + d0/2.*pow(dp,2.) + (4./5.)*e0*dp*sqrt(sqrt(dp)))*(1000.);
+
     // thermodynamic properties (MRK part)
-    z = (Pkb*vc)/(RR*Tk);
     grs = R_CONST*Tk*log(fc);
-    hrs = ( (z-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vc/(vc+b)) )*R_CONST*Tk;
+    hrs = hmrk(vc-vvir, Pkb, a, da) + hvir;
     srs = (hrs-grs)/Tk;
     cvrs = ( -1./(b*RR)*(-da/pow(Tk,0.5)+pow(Tk,0.5)*d2a+(3.*a)/(4.*pow(Tk,1.5))))*log(vc/(vc+b) )*R_CONST;
     dpv = (- RR*Tk/pow((vc-b),2.) + a/(pow(vc,2.)*(vc+b)*pow(Tk,0.5))
-- 
2.43.0


From e9e1ccc58478c342bf93b2bdd7d3bdc6061c8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:30 +0000
Subject: [PATCH 58/63] fix: the STP gas model read an uninitialised fluid code
 for gases other than H2O and CO2

---
 ThermoFun/Substances/Gases/GasSTP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Gases/GasSTP.cpp b/ThermoFun/Substances/Gases/GasSTP.cpp
index f8bac3a..e99d343 100644
--- a/ThermoFun/Substances/Gases/GasSTP.cpp
+++ b/ThermoFun/Substances/Gases/GasSTP.cpp
@@ -9,7 +9,7 @@ namespace ThermoFun {
 auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
     double FugProps[6];
-    char Eos_Code;
+    char Eos_Code = 'G';
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
 
-- 
2.43.0


From 831a1d7223dfdd5437cf250b50fcce565e5b9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:30 +0000
Subject: [PATCH 59/63] fix: STP gas properties were uninitialised memory above
 2000 K or when no density was found

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 25 ++++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 01b25dc..bc9bae4 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -6273,21 +6273,22 @@ long int TSTPcalc::STPCalcFugPure(double Tmin, double *Cpg, double *FugProps )
     if( (Tk >= Tmin) && (Tk < 1e4) && (Pbar >= 1e-5) && (Pbar < 1e5) )
     {
         iErr = FugacityPT( 0, Coeff );
-        for( int i=0; i<6; i++ )
-            FugProps[i] = Fugpure[0][i];
-        return iErr;
+        if( !iErr )
+        {
+            for( int i=0; i<6; i++ )
+                FugProps[i] = Fugpure[0][i];
+            return 0;
+        }
     }
-
     else
-    {
-        for( int i=1; i<6; i++ )
-            FugProps[i] = 0.;
-        FugProps[0] = 1.;
-        FugProps[4] = 8.31451*Tk/Pbar;
-        return -1;
-    }
+        iErr = -1;
 
-    return 0;
+    // outside the range of the model, or no density found
+    for( int i=1; i<6; i++ )
+        FugProps[i] = 0.;
+    FugProps[0] = 1.;
+    FugProps[4] = 8.31451*Tk/Pbar;
+    return iErr;
 }
 
 
-- 
2.43.0


From b3a1e2f34d6fdfe5533fe922934740f2d356720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:05 +0000
Subject: [PATCH 60/63] fix: the roots of the gas models' cubic equations were
 off by 1e-8 of the largest, much more of a small liquid volume

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index bc9bae4..10d775f 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -593,8 +593,8 @@ long int TPRSVcalc::Cardano( double a2, double a1, double a0, double &z1, double
 	{
 		theta = acos(rc/sqrt(q3));
 		z1 = (-2.)*sqrt(q)*cos(theta/3.)-a2/3.;
-		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.1415927)-a2/3.;
-		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.1415927)-a2/3.;
+		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.141592653589793)-a2/3.;
+		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.141592653589793)-a2/3.;
 	}
 	else  // one real root
 	{
@@ -2984,8 +2984,8 @@ long int TSRKcalc::Cardano( double a2, double a1, double a0, double &z1, double
 	{
 		theta = acos(rc/sqrt(q3));
 		z1 = (-2.)*sqrt(q)*cos(theta/3.)-a2/3.;
-		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.1415927)-a2/3.;
-		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.1415927)-a2/3.;
+		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.141592653589793)-a2/3.;
+		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.141592653589793)-a2/3.;
 	}
 
 	else  // one real root
@@ -3793,8 +3793,8 @@ long int TPR78calc::Cardano( double a2, double a1, double a0, double &z1, double
 	{
 		theta = acos(rc/sqrt(q3));
 		z1 = (-2.)*sqrt(q)*cos(theta/3.)-a2/3.;
-		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.1415927)-a2/3.;
-		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.1415927)-a2/3.;
+		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.141592653589793)-a2/3.;
+		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.141592653589793)-a2/3.;
 	}
 	else  // one real root
 	{
@@ -4881,10 +4881,10 @@ long int TCORKcalc::Cardano(double cb, double cc, double cd, double &v1, double
     {
         co = atan(sqrt(1.-cp2/(cq3))/(cp/sqrt(cq3)));
         if (co<0.)
-            co = co + 3.1415927;
+            co = co + 3.141592653589793;
         v1 = (-2.)*sqrt(cq)*cos(co/3.) - cb/3.;
-        v2 = (-2.)*sqrt(cq)*cos((co+2.*3.1415927)/3.) - cb/3.;
-        v3 = (-2.)*sqrt(cq)*cos((co-2.*3.1415927)/3.) - cb/3.;
+        v2 = (-2.)*sqrt(cq)*cos((co+2.*3.141592653589793)/3.) - cb/3.;
+        v3 = (-2.)*sqrt(cq)*cos((co-2.*3.141592653589793)/3.) - cb/3.;
     }
 
     return 0;
-- 
2.43.0


From 33e60246e01818b3fc6376507247d832c3acca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:32 +0000
Subject: [PATCH 61/63] fix: the gas models read past the end of their critical
 parameters, five of them in every call of the Churakov-Gottschalk model

---
 ThermoFun/Substances/Gases/GasCGF.cpp  | 14 +++++++-------
 ThermoFun/Substances/Gases/GasCORK.cpp | 11 +++++------
 ThermoFun/Substances/Gases/GasPR78.cpp | 14 +++++++-------
 ThermoFun/Substances/Gases/GasPRSV.cpp | 14 +++++++-------
 ThermoFun/Substances/Gases/GasSRK.cpp  | 14 +++++++-------
 ThermoFun/Substances/Gases/GasSTP.cpp  | 16 ++++++++--------
 6 files changed, 41 insertions(+), 42 deletions(-)

diff --git a/ThermoFun/Substances/Gases/GasCGF.cpp b/ThermoFun/Substances/Gases/GasCGF.cpp
index df3ab15..4b4f0eb 100644
--- a/ThermoFun/Substances/Gases/GasCGF.cpp
+++ b/ThermoFun/Substances/Gases/GasCGF.cpp
@@ -3,6 +3,8 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include <algorithm>
+#include <array>
 
 namespace ThermoFun {
 
@@ -12,14 +14,12 @@ auto thermoPropertiesGasCGF(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TCGFcalc myCGF( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    const auto params = subst.thermoParameters();
+    double TClow = params.temperature_intervals.empty() || params.temperature_intervals[0].empty() ? 0. : params.temperature_intervals[0][0];
+    std::array<double, 12> CPg{};  // parameters the record does not give are zero
+    std::copy_n(params.critical_parameters.begin(), std::min(params.critical_parameters.size(), CPg.size()), CPg.begin());
 
-    myCGF.CGcalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myCGF.CGcalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasCORK.cpp b/ThermoFun/Substances/Gases/GasCORK.cpp
index 58d50bb..8f592fc 100644
--- a/ThermoFun/Substances/Gases/GasCORK.cpp
+++ b/ThermoFun/Substances/Gases/GasCORK.cpp
@@ -4,6 +4,7 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include <algorithm>
 
 namespace ThermoFun {
 
@@ -18,12 +19,10 @@ auto thermoPropertiesGasCORK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TCORKcalc myCORK( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    std::array<double, 7> CPg;
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    const auto params = subst.thermoParameters();
+    double TClow = params.temperature_intervals.empty() || params.temperature_intervals[0].empty() ? 0. : params.temperature_intervals[0][0];
+    std::array<double, 7> CPg{};  // parameters the record does not give are zero
+    std::copy_n(params.critical_parameters.begin(), std::min(params.critical_parameters.size(), CPg.size()), CPg.begin());
 
     myCORK.CORKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
diff --git a/ThermoFun/Substances/Gases/GasPR78.cpp b/ThermoFun/Substances/Gases/GasPR78.cpp
index a8c93cd..3c838e2 100644
--- a/ThermoFun/Substances/Gases/GasPR78.cpp
+++ b/ThermoFun/Substances/Gases/GasPR78.cpp
@@ -3,6 +3,8 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include <algorithm>
+#include <array>
 
 namespace ThermoFun {
 
@@ -12,14 +14,12 @@ auto thermoPropertiesGasPR78(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPR78calc myPR78( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    const auto params = subst.thermoParameters();
+    double TClow = params.temperature_intervals.empty() || params.temperature_intervals[0].empty() ? 0. : params.temperature_intervals[0][0];
+    std::array<double, 7> CPg{};  // parameters the record does not give are zero
+    std::copy_n(params.critical_parameters.begin(), std::min(params.critical_parameters.size(), CPg.size()), CPg.begin());
 
-    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasPRSV.cpp b/ThermoFun/Substances/Gases/GasPRSV.cpp
index 86026a8..2e18f71 100644
--- a/ThermoFun/Substances/Gases/GasPRSV.cpp
+++ b/ThermoFun/Substances/Gases/GasPRSV.cpp
@@ -3,6 +3,8 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include <algorithm>
+#include <array>
 
 namespace ThermoFun {
 
@@ -12,14 +14,12 @@ auto thermoPropertiesGasPRSV(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPRSVcalc myPRSV( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    const auto params = subst.thermoParameters();
+    double TClow = params.temperature_intervals.empty() || params.temperature_intervals[0].empty() ? 0. : params.temperature_intervals[0][0];
+    std::array<double, 7> CPg{};  // parameters the record does not give are zero
+    std::copy_n(params.critical_parameters.begin(), std::min(params.critical_parameters.size(), CPg.size()), CPg.begin());
 
-    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSRK.cpp b/ThermoFun/Substances/Gases/GasSRK.cpp
index 48afa27..d7cf1b6 100644
--- a/ThermoFun/Substances/Gases/GasSRK.cpp
+++ b/ThermoFun/Substances/Gases/GasSRK.cpp
@@ -3,6 +3,8 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include <algorithm>
+#include <array>
 
 namespace ThermoFun {
 
@@ -12,14 +14,12 @@ auto thermoPropertiesGasSRK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TSRKcalc mySRK( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    const auto params = subst.thermoParameters();
+    double TClow = params.temperature_intervals.empty() || params.temperature_intervals[0].empty() ? 0. : params.temperature_intervals[0][0];
+    std::array<double, 7> CPg{};  // parameters the record does not give are zero
+    std::copy_n(params.critical_parameters.begin(), std::min(params.critical_parameters.size(), CPg.size()), CPg.begin());
 
-    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSTP.cpp b/ThermoFun/Substances/Gases/GasSTP.cpp
index e99d343..590abf8 100644
--- a/ThermoFun/Substances/Gases/GasSTP.cpp
+++ b/ThermoFun/Substances/Gases/GasSTP.cpp
@@ -3,6 +3,8 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 #include "ThermoParameters.h"
+#include <algorithm>
+#include <array>
 
 namespace ThermoFun {
 
@@ -17,14 +19,12 @@ auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TSTPcalc mySTP( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
-
-    mySTP.STPCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    const auto params = subst.thermoParameters();
+    double TClow = params.temperature_intervals.empty() || params.temperature_intervals[0].empty() ? 0. : params.temperature_intervals[0][0];
+    std::array<double, 7> CPg{};  // parameters the record does not give are zero
+    std::copy_n(params.critical_parameters.begin(), std::min(params.critical_parameters.size(), CPg.size()), CPg.begin());
+
+    mySTP.STPCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
-- 
2.43.0


From 094fed9194e5ba5631ad5fae8764a114e8ba000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 62/63] fix: the residual enthalpy of the Churakov-Gottschalk
 model was RT too large, its entropy relative to another ideal gas

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 10d775f..69c96f1 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -1332,8 +1332,9 @@ long int TCGFcalc::CGResidualFunct( double *X, double *param, double *param1, un
 	F1 = FTOTALMIX(T+T*delta,ro,paar1);
 	// F1 = FTOTALMIX(T+T*delta,ro,paar);
 
-	Srs = - ( (F1-F0)/(delta*Tk)*Tk + F0 ) * R_CONST;	// corrected, 20.06.2008 (TW)
-	Hrs = (F0*Tk*R_CONST + Tk*Srs) + Z*R_CONST*Tk;
+	// relative to the ideal gas at the same temperature and pressure
+	Srs = - ( (F1-F0)/(delta*Tk)*Tk + F0 - log(Z) ) * R_CONST;	// corrected, 20.06.2008 (TW)
+	Hrs = (F0*Tk*R_CONST + Tk*Srs) + (Z-1.-log(Z))*R_CONST*Tk;
 	Grs = Hrs - Tk*Srs;
 	CPrs = 0.;
 	vmix = Z*R_CONST*Tk/Pbar;
@@ -2265,7 +2266,7 @@ long int TCGFcalc::CGcalcFugPure(double Tmin, double *Cemp, double *FugProps )
 	long int retCode = 0;
 	double T, P, Fugacity = 0.1, Volume = 0.0;
 	double X[1] = {1.};
-	double roro = 1.;  // added 21.06.2008 (TW)
+	double roro = 1., roro1 = 1.;  // added 21.06.2008 (TW)
 	double Coeff[12];  // MAXEOSPARAM = 20;
 	double Eos4parPT[4] = { 0.0, 0.0, 0.0, 0.0 },
 		Eos4parPT1[4] = { 0.0, 0.0, 0.0, 0.0 } ;
@@ -2283,7 +2284,7 @@ long int TCGFcalc::CGcalcFugPure(double Tmin, double *Cemp, double *FugProps )
 		FugProps[0] = Fugacity/Pbar;
 		FugProps[1] = 8.31451 * Tk * log( Fugacity / P );
 		FugProps[4] = Volume;
-		retCode = CGFugacityPT( Coeff, Eos4parPT1, Fugacity, Volume, P, T+T*DELTA, roro );
+		retCode = CGFugacityPT( Coeff, Eos4parPT1, Fugacity, Volume, P, T+T*DELTA, roro1 );
 		CGResidualFunct( X, Eos4parPT, Eos4parPT1, 1, roro, T );
 		FugProps[2] = Hrs;
 		FugProps[3] = Srs;
-- 
2.43.0


From fccde902c3bfa8e15456eaa8383a7452e9881a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:58 +0000
Subject: [PATCH 63/63] fix: converting a logK function with fewer than seven
 coefficients read past their end

---
 ThermoFun/Reaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index b332b02..44040bc 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -431,6 +431,7 @@ auto Reaction::convert_logKfT_toCpfT(/*MethodCorrT_Thrift::type methodT*/) -> Th
     case MethodCorrT_Thrift::type::CTM_LGK:
        /* Calc lgK, Hr and Sr */
         CpCoeff.resize(5);
+        K_fT_Coeff.resize(7, 0.0); // terms not given are zero
         lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
         Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
-- 
2.43.0


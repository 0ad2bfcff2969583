// C03: conversion between units. The table of units is the physicist's, not the code's: every unit by its size in kg, m, s, A, mol, cd, rad, sr, eq, K.
#include "ts.hpp"
#include "ThermoFun/Common/Units.hpp"
#include <set>
using namespace vf; using namespace ThermoFun;
typedef std::string str; typedef std::vector<int> Dim;   // exponents, in halves
struct U { str name; double size; Dim dim; bool exact = true; };
static Dim d(std::initializer_list<std::pair<const char*, int>> l) { static const char* base[] = {"kg", "m", "s", "A", "mol", "cd", "radian", "sr", "eq", "K"}; Dim r(10, 0); for (auto [n, e] : l) for (int i = 0; i < 10; ++i) if (str(n) == base[i]) r[i] = 2 * e; return r; }
static std::vector<U> table() { double k = 1000, m = 0.001, M = k * k, G = M * k, u = m * m, n = u * m, p = n * m; double in = 0.0254, ft = 12 * in, mi = 5280 * ft, lb = 0.45359237, lbf = 4.4482216152605, gal = 0.00454609, pi = 3.14159265358979; std::vector<U> t; auto add = [&](const Dim& x, std::initializer_list<std::pair<const char*, double>> l, bool exact = true) { for (auto& [a, b] : l) t.push_back({a, b, x, exact}); };
    add(d({}), {{"1", 1}, {"percent", 0.01}, {"permil", m}, {"ppm", u}, {"ppb", n}});
    add(d({{"kg", 1}}), {{"g", m}, {"kg", 1}, {"mg", u}, {"ug", n}, {"ng", p}, {"tonne", k}, {"lb", lb}, {"ton", 2000 * lb}, {"gram", m}, {"grams", m}, {"kilogram", 1}, {"kilograms", 1}, {"lbm", lb}}); add(d({{"kg", 1}}), {{"amu", 1.66053906660e-27}}, false);
    add(d({{"m", 1}}), {{"m", 1}, {"km", k}, {"cm", 0.01}, {"mm", m}, {"um", u}, {"nm", n}, {"Angstrom", 1e-10}, {"in", in}, {"mil", in * m}, {"ft", ft}, {"yd", 3 * ft}, {"mi", mi}, {"nauticalmile", 1852}, {"lightyear", 9460730472580800}, {"au", 149597870700}, {"feet", ft}, {"foot", ft}, {"inch", in}, {"inches", in}, {"meter", 1}, {"meters", 1}, {"mile", mi}, {"miles", mi}, {"yard", 3 * ft}, {"yards", 3 * ft}});
    double day = 86400, year = 365.2422 * day; add(d({{"s", 1}}), {{"s", 1}, {"ms", m}, {"us", u}, {"ns", n}, {"minute", 60}, {"hour", 3600}, {"day", day}, {"week", 7 * day}, {"second", 1}, {"seconds", 1}, {"minutes", 60}, {"hours", 3600}, {"days", day}, {"weeks", 7 * day}}); add(d({{"s", 1}}), {{"month", year / 12}, {"months", year / 12}, {"year", year}, {"years", year}}, false);
    add(d({{"A", 1}}), {{"A", 1}, {"MA", M}, {"kA", k}, {"mA", m}, {"uA", u}, {"nA", n}, {"pA", p}, {"ampere", 1}, {"amperes", 1}}); add(d({{"mol", 1}}), {{"mol", 1}, {"mmol", m}, {"umol", u}, {"mole", 1}, {"moles", 1}}); add(d({{"cd", 1}}), {{"cd", 1}, {"candela", 1}}); add(d({{"radian", 1}}), {{"radian", 1}, {"mradian", m}, {"uradian", u}}); add(d({{"radian", 1}}), {{"deg", pi / 180}, {"degree", pi / 180}, {"degrees", pi / 180}}, false); add(d({{"sr", 1}}), {{"sr", 1}, {"steradian", 1}}); add(d({{"eq", 1}}), {{"eq", 1}, {"meq", m}, {"ueq", u}, {"neq", n}});
    add(d({{"m", 2}}), {{"m2", 1}, {"m^2", 1}, {"mm2", u}, {"mm^2", u}, {"cm2", 0.0001}, {"cm^2", 0.0001}, {"in2", in * in}, {"in^2", in * in}, {"ft2", ft * ft}, {"ft^2", ft * ft}, {"hectare", 10000}, {"barn", 1e-28}, {"hectares", 10000}, {"barns", 1e-28}}); add(d({{"m", 2}}), {{"acre", 4046.8726}, {"acres", 4046.8726}}, false);
    add(d({{"m", 3}}), {{"m3", 1}, {"m^3", 1}, {"mm3", n}, {"mm^3", n}, {"cm3", u}, {"cm^3", u}, {"in3", in * in * in}, {"in^3", in * in * in}, {"ft3", ft * ft * ft}, {"ft^3", ft * ft * ft}, {"l", m}, {"ml", u}, {"ul", n}, {"L", m}, {"mL", u}, {"uL", n}, {"gal", gal}, {"quart", gal / 4}, {"cc", u}, {"gallon", gal}, {"gallons", gal}, {"liter", m}, {"liters", m}});
    add(d({{"m", 1}, {"s", -1}}), {{"mps", 1}, {"cmps", 0.01}, {"mph", mi / 3600}, {"knot", 1852 / double(3600)}, {"fps", ft}}); add(d({{"m", 1}, {"s", -2}}), {{"mpss", 1}, {"fpss", ft}, {"gravity", 9.80665}}); add(d({{"s", -1}}), {{"Hz", 1}, {"kHz", k}, {"MHz", M}, {"GHz", G}, {"rpm", 1 / double(60)}, {"hertz", 1}});
    double ft3 = ft * ft * ft; add(d({{"m", 3}, {"s", -1}}), {{"gps", gal}, {"gpm", gal / 60}, {"gph", gal / 3600}, {"cfs", ft3}, {"cfm", ft3 / 60}, {"lps", m}, {"lpm", m / 60}});
    add(d({{"kg", 1}, {"m", 1}, {"s", -2}}), {{"N", 1}, {"kN", k}, {"dyne", 1e-5}, {"dynes", 1e-5}, {"newton", 1}, {"newtons", 1}}); add(d({{"kg", 1}, {"m", 1}, {"s", -2}}), {{"lbf", lbf}}, false);
    Dim P = d({{"kg", 1}, {"m", -1}, {"s", -2}}); add(P, {{"Pa", 1}, {"kPa", k}, {"MPa", M}, {"GPa", G}, {"atm", 101325}, {"bar", 1e5}, {"kbar", 1e8}, {"pascal", 1}, {"pascals", 1}}); double psi = lbf / (in * in); add(P, {{"mmHg", 133.322387415}, {"inHg", 3386.389}, {"psi", psi}, {"kpsi", k * psi}, {"Mpsi", M * psi}, {"psf", lbf / (ft * ft)}, {"torr", 101325 / double(760)}, {"inH2O", 249.08891}, {"ftH2O", 12 * 249.08891}}, false);
    Dim E = d({{"kg", 1}, {"m", 2}, {"s", -2}}); double eV = 1.602176634e-19; add(E, {{"J", 1}, {"kJ", k}, {"MJ", M}, {"erg", 1e-7}, {"cal", 4.184}, {"kcal", 4184}, {"calorie", 4.184}, {"calories", 4.184}, {"joule", 1}, {"joules", 1}}); add(E, {{"eV", eV}, {"keV", k * eV}, {"MeV", M * eV}, {"GeV", G * eV}, {"btu", 1055.05585262}}, false);
    add(d({{"kg", 1}, {"m", 2}, {"s", -3}}), {{"W", 1}, {"watts", 1}}); add(d({{"A", 1}, {"s", 1}}), {{"C", 1}, {"coulomb", 1}, {"coulombs", 1}, {"mC", m}}); add(d({{"kg", 1}, {"m", 2}, {"s", -3}, {"A", -1}}), {{"V", 1}, {"volt", 1}, {"volts", 1}, {"mV", m}}); add(d({{"kg", 1}, {"m", 2}, {"s", -3}, {"A", -2}}), {{"ohm", 1}, {"ohms", 1}}); add(d({{"kg", -1}, {"m", -2}, {"s", 3}, {"A", 2}}), {{"S", 1}, {"siemens", 1}}); add(d({{"kg", -1}, {"m", -2}, {"s", 4}, {"A", 2}}), {{"F", 1}, {"pF", p}, {"nF", n}, {"uF", u}, {"mF", m}, {"farad", 1}, {"farads", 1}});
    add(d({{"kg", 1}, {"m", 2}, {"s", -2}, {"A", -1}}), {{"Wb", 1}, {"weber", 1}, {"webers", 1}}); add(d({{"kg", 1}, {"s", -2}, {"A", -1}}), {{"T", 1}, {"gauss", 1e-4}, {"tesla", 1}, {"teslas", 1}}); add(d({{"kg", 1}, {"m", 2}, {"s", -2}, {"A", -2}}), {{"H", 1}, {"mH", m}, {"uH", u}, {"henry", 1}});
    add(d({{"mol", 1}, {"kg", -1}}), {{"molal", 1}, {"mmolal", m}, {"umolal", u}, {"nmolal", n}}); add(d({{"mol", 1}, {"m", -3}}), {{"molar", k}, {"mmolar", 1}, {"umolar", m}, {"nmolar", u}});
    for (int i = 2; i < 6; ++i) { Dim x(10, 0); x[9] = 2 * i; t.push_back({"K^" + std::to_string(i), 1, x}); Dim y = P; for (auto& e : y) e *= i; double s = 1; for (int j = 0; j < i; ++j) s *= 1e5; t.push_back({"bar^" + std::to_string(i), s, y}); } { Dim x(10, 0); x[9] = 1; t.push_back({"K^0.5", 1, x}); x[9] = 3; t.push_back({"K^1.5", 1, x}); Dim y = P; for (auto& e : y) e /= 2; double s = 1e5; t.push_back({"bar^0.5", std::sqrt(s), y}); }
    return t; }
// temperatures: size of a degree, and its reading at absolute zero
struct Temp { str name; double degree, zero; };
static std::vector<Temp> temps() { double f = 9 / double(5); return {{"K", 1, 0}, {"degC", 1, -273.15}, {"degF", f, 32 - 273.15 * f}, {"degR", f, 0}, {"kelvin", 1, 0}, {"celsius", 1, -273.15}, {"fahrenheit", f, 32 - 273.15 * f}, {"rankine", f, 0}}; }
static Dim K() { Dim x(10, 0); x[9] = 2; return x; }
static bool rejected(double v, const str& a, const str& b) { try { units::convert(v, a, b); return false; } catch (std::exception&) { return true; } }
static bool convertible(const str& a, const str& b) { try { return units::convertible(a, b); } catch (std::exception&) { return false; } }
// SI expression of a dimension, as a user may write it
static str si(const Dim& x) { static const char* base[] = {"kg", "m", "s", "A", "mol", "cd", "radian", "sr", "eq", "K"}; str s = "1"; for (int i = 0; i < 10; ++i) { int e = x[i]; while (e >= 2) { s += str("*") + base[i]; e -= 2; } while (e <= -2) { s += str("/") + base[i]; e += 2; } if (e == 1) s += "*K^0.5"; } return s; }
CONTRACT(size, "units::convert, factor, dimension: every unit of the table") { fork_eq(false); static const auto t = table(); int i = choose("unit", (int)t.size()); double v = in("v", -1e3, 1e3); const U& x = t[i]; bool halves = false; for (int e = 0; e < 9; ++e) halves = halves || x.dim[e] % 2; str s = halves ? str("Pa*Pa/Pa/Pa*bar^0.5") : si(x.dim); double size = halves ? x.size / std::sqrt(double(1e5)) : x.size;
    chk("convertible to SI", convertible(x.name, s), x.name); chk("and from it", convertible(s, x.name), x.name); if (!convertible(x.name, s) || !convertible(s, x.name)) return; double y = units::convert(v, x.name, s); if (x.exact) eq("value in SI", y, v * size); else eqc("value in SI (measured constant)", y, v * size, 4e-6); eq("back from SI", units::convert(y, s, x.name), v); eq("to itself", units::convert(v, x.name, x.name), v); cover("end"); }
CONTRACT(pairs, "units::convert, convertible: every two units of the table") { fork_eq(false); static const auto t = table(); int i = choose("unit", (int)t.size()); double v = in("v", -1e3, 1e3); const U& x = t[i]; const U* third = nullptr; for (size_t j = 0; j < t.size(); ++j) { const U& y = t[j]; bool want = x.dim == y.dim; chk("convertible exactly when of one dimension", convertible(x.name, y.name) == want, x.name + " " + y.name); if (!want) { chk("conversion to another dimension is rejected", rejected(v, x.name, y.name), x.name + " " + y.name); continue; }
        double w = units::convert(v, x.name, y.name); if (x.exact && y.exact) eq("ratio of the sizes", w, v * x.size / y.size); eq("and back", units::convert(w, y.name, x.name), v); if (third) eq("through a third unit", units::convert(units::convert(v, x.name, third->name), third->name, y.name), w); third = &y; } for (auto& q : temps()) { bool want = x.dim == K(); chk("convertible exactly when of one dimension", convertible(x.name, q.name) == want && convertible(q.name, x.name) == want, x.name + " " + q.name); } cover("end"); }
CONTRACT(temperatures, "units::convert, convertTemperature, toKelvin, fromKelvin") { fork_eq(false); auto t = temps(); int i = choose("from", 8), j = choose("to", 8), k = choose("third", 8); double v = in("v", -500, 5000); chk("convertible", convertible(t[i].name, t[j].name)); double w = units::convert(v, t[i].name, t[j].name); eq("the same temperature", w, (v - t[i].zero) / t[i].degree * t[j].degree + t[j].zero); eq("and back", units::convert(w, t[j].name, t[i].name), v); eq("through a third unit", units::convert(units::convert(v, t[i].name, t[k].name), t[k].name, t[j].name), w); cover("end"); }
// ---- products, quotients and powers: the shapes are enumerated, the atoms chosen so that every kind of entry of the table takes part
struct X { str s; double size; Dim dim; };
static X mul(const X& a, const X& b, bool paren) { X r{a.s + "*" + (paren ? "(" + b.s + ")" : b.s), a.size * b.size, a.dim}; for (int i = 0; i < 10; ++i) r.dim[i] += b.dim[i]; return r; }
static X quo(const X& a, const X& b, bool paren) { X r{a.s + "/" + (paren ? "(" + b.s + ")" : b.s), a.size / b.size, a.dim}; for (int i = 0; i < 10; ++i) r.dim[i] -= b.dim[i]; return r; }
static X par(X a) { a.s = "(" + a.s + ")"; return a; }
static X atom(const str& n) { if (n == "degC") return {n, 1, K()}; if (n == "degF") return {n, 5 / double(9), K()}; if (n == "kelvin" || n == "K") return {n, 1, K()}; static const auto t = table(); for (auto& x : t) if (x.name == n) return {n, x.size, x.dim}; throw std::logic_error(n); }
static X compound(const str& c) { static const char* A[] = {"J", "kcal", "cm3", "1"}; static const char* B[] = {"mol", "kbar", "degF", "percent"}; static const char* C[] = {"K^2", "K", "g", "bar^2"}; X a = atom(A[choose(c + "a", 4)]), b = atom(B[choose(c + "b", 4)]), k = atom(C[choose(c + "c", 4)]);
    switch (choose(c + "shape", 13)) { case 0: return mul(a, b, false); case 1: return quo(a, b, false); case 2: return quo(quo(a, b, false), k, false); case 3: return quo(a, mul(b, k, false), true); case 4: return quo(par(mul(a, k, false)), b, false); case 5: return mul(quo(a, b, false), k, false); case 6: return quo(a, quo(b, k, false), true); case 7: return quo(par(mul(a, b, false)), mul(k, b, false), true); case 8: return quo(quo(a, mul(b, k, false), true), k, false); case 9: return mul(a, quo(b, k, false), true); case 10: return par(quo(par(mul(a, a, false)), k, true)); case 11: return mul(quo(a, par(mul(b, k, false)), true), b, false); default: return quo(a, quo(par(mul(b, a, false)), mul(k, b, false), true), true); } }
CONTRACT(bounded_compound_size, "units::convert, parseUnit, factor, dimension on products and quotients") { fork_eq(false); X a = compound(""); double v = in("v", -1e3, 1e3); str s = "1", q = si(a.dim); chk("convertible to SI", convertible(a.s, q), a.s + " " + q); if (convertible(a.s, q)) { double w = units::convert(v, a.s, q); eq("value in SI", w, v * a.size); eq("and back", units::convert(w, q, a.s), v); } static const char* others[] = {"J", "1", "K", "J/(mol*K)", "cm3/mol", "degC/kbar", "bar^2", "g/kg", "mol"}; for (auto o : others) { Dim x = str(o) == "J/(mol*K)" ? quo(atom("J"), mul(atom("mol"), atom("K"), false), true).dim : str(o) == "cm3/mol" ? quo(atom("cm3"), atom("mol"), false).dim : str(o) == "degC/kbar" ? quo(atom("degC"), atom("kbar"), false).dim : str(o) == "g/kg" ? Dim(10, 0) : atom(o).dim; bool want = x == a.dim; chk("convertible exactly when of one dimension", convertible(a.s, o) == want && convertible(o, a.s) == want, a.s + " " + o); if (!want) chk("conversion to another dimension is rejected", rejected(v, a.s, o) && rejected(v, o, a.s), a.s + " " + o); } cover("end"); }
CONTRACT(bounded_compound_pairs, "units::convert between products and quotients") { fork_eq(false); static const char* L[][6] = {{"J/(mol*K)", "cal/(mol*K)", "kJ/mol/K", "(cal/mol)/degC", "J/(kelvin*mol)", "Pa*m3/(mol*K)"}, {"J/bar", "cm3", "(cal*1)/kbar", "(J/mol)/(bar/mol)", "kg*m/s/s*m/Pa", "m*(cm2)"}, {"(J*K)/(mol*bar)", "(cal*degC)/(mol*bar)", "cm3*K/mol", "J/(mol*bar/K)", "K*J/mol/kbar", "(K*(cm3/mol))"}, {"g/mol", "kg/mol", "mg/(umol)", "amu/mol", "(g*K)/(mol*K)", "1/(mol/g)"}}; int f = choose("family", 4), i = choose("from", 6), j = choose("to", 6), k = choose("third", 6); double v = in("v", -1e3, 1e3); chk("convertible", convertible(L[f][i], L[f][j])); if (!convertible(L[f][i], L[f][j]) || !convertible(L[f][i], L[f][k])) return; double w = units::convert(v, L[f][i], L[f][j]); eq("and back", units::convert(w, L[f][j], L[f][i]), v); eq("through a third unit", units::convert(units::convert(v, L[f][i], L[f][k]), L[f][k], L[f][j]), w); for (int g = 0; g < 4; ++g) if (g != f) chk("another family is rejected", !convertible(L[f][i], L[g][j]) && rejected(v, L[f][i], L[g][j])); cover("end"); }
CONTRACT(bounded_malformed, "parseUnit on what is no unit") { fork_eq(false); static const char* bad[] = {"", "()", "J/", "/K", "*", "J//K", "J*", "kg(m)", "J(mol)", "(J", "J)", "xyz", "J/xyz", "(xyz*J)/K", "2J", "J mol", "(J*K)mol", "J*()", "()/J", "J/(mol*)", "J^7", "degX", "K degC", "kilojoule/mol"}; const char* b = bad[choose("bad", 24)]; static const char* good[] = {"J", "K", "g", "1"}; const char* g = good[choose("good", 4)]; double v = in("v", -1e3, 1e3); chk("is not convertible", !convertible(b, g) && !convertible(g, b), b); chk("is rejected", rejected(v, b, g) && rejected(v, g, b), b); cover("end"); }

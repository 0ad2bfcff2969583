// C19: result files hold each value in the row and column that name it.
#include "batch.hpp"
#include "ThermoFun/Common/OutputToCSV.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
typedef std::vector<str> row; typedef std::vector<row> table;
struct Scratch { char dir[64]; char old[4096]; bool ok; Scratch() { strcpy(dir, "/tmp/vf-c19-XXXXXX"); ok = mkdtemp(dir) && getcwd(old, sizeof old) && chdir(dir) == 0; } std::vector<str> files; ~Scratch() { if (!ok) return; if (DIR* q = opendir(dir)) { while (dirent* e = readdir(q)) unlinkat(dirfd(q), e->d_name, 0); closedir(q); } if (chdir(old)) {} rmdir(dir); } };
static row split(const str& l, char c) { row r(1); for (char x : l) if (x == c) r.push_back(""); else r.back() += x; return r; }
static table load(Scratch& s, const str& f, char sep) { s.files.push_back(f); std::ifstream in(f); table t; str l; while (std::getline(in, l)) t.push_back(split(l, sep)); return t; }
static str under(str s, char sep) { for (char& c : s) if (c == sep) c = '_'; return s; }
static const struct { bool fixed, sci; char form; } FORMS[] = {{true, false, 'f'}, {false, true, 'e'}, {false, false, 'g'}};
template<class S> struct W_;
template<> struct W_<TPS> { static const std::vector<std::pair<str, ThermoScalar TPS::*>>& props() { return SPROPS; } template<class... A> static Output run(ThermoBatch& b, A... a) { return b.thermoPropertiesSubstance(a...); } };
template<> struct W_<TPR> { static const std::vector<std::pair<str, ThermoScalar TPR::*>>& props() { return RPROPS; } template<class... A> static Output run(ThermoBatch& b, A... a) { return b.thermoPropertiesReaction(a...); } };
static const std::vector<UnitOf>& units_of(const str& p) { return p.find("entropy") != str::npos || p.find("heat") != str::npos ? US : p.find("volume") != str::npos ? UV : p[0] == 'l' ? U1 : UE; }
// a batch of k records at n pairs with given results: any values, some undefined
template<class S> struct Setup { typedef std::vector<std::pair<str, ThermoScalar S::*>> Props; ThermoBatch b; row sy; Props pr; std::vector<vec> pairs; vec Ts, Ps; bool lists; std::vector<S> given; std::map<str, UnitOf> unit; std::map<str, int> digits; char sep, form; UnitOf ut, up; Output* o = nullptr; int style;
    Setup() : b(Database()) { style = choose("style", 12); auto& p = b.preferences(); p.loopOverTPpairsFirst = choose("pairs first"); p.loopTemperatureThenPressure = choose("temperature first"); p.writeNaNifNotDefinedValue = style % 5 != 0; sep = ",;\t"[style % 3]; p.separator = str(1, sep); notation(style % 3); static const row all = {"Ca+2", "H2O@", "I2,aq", "x;y", "H2O@"}; int m = 1 + choose("records", 3); for (int i = 0; i < m; ++i) sy.push_back(all[(style + i) % 5]);
        auto& P = W_<S>::props(); int np = 1 + style % 4; for (int i = 0; i < np; ++i) pr.push_back(P[(style + 3 * i) % P.size()]); ut = UT[style / 2 % 2]; up = UP[style / 3 % 3]; row un = {"temperature", "pressure"}, uv = {ut.name, up.name}; std::vector<int> d = {style % 4, (style + 1) % 3}; for (auto& x : pr) { auto& us = units_of(x.first); unit[x.first] = us[style / 2 % us.size()]; un.push_back(x.first); uv.push_back(unit[x.first].name); d.push_back((style + d.size()) % 5); } for (size_t i = 0; i < un.size(); ++i) digits[un[i]] = d[i]; for (size_t i = 2; i < un.size(); ++i) d[i] = digits[un[i]];
        if (style % 2) { b.setPropertiesUnits(un, uv); b.setPropertiesDigits(un, d); } else for (size_t i = 0; i < un.size(); ++i) b.setPropertyUnitDigit(un[i], uv[i], d[i]); }
    void notation(int k) { form = FORMS[k].form; b.preferences().isFixed = FORMS[k].fixed; b.preferences().isScientific = FORMS[k].sci; }
    double T(int i) { return in("T" + std::to_string(i), 300 + 100 * i, 350 + 100 * i); } double P(int i) { return in("P" + std::to_string(i), 10 + 30 * i, 25 + 30 * i); }
    void grid(int n, int m) { lists = true; for (int i = 0; i < n; ++i) Ts.push_back(T(n - 1 - i)); for (int i = 0; i < m; ++i) Ps.push_back(P(i)); if (b.preferences().loopTemperatureThenPressure) for (auto t : Ts) for (auto p : Ps) pairs.push_back({t, p}); else for (auto p : Ps) for (auto t : Ts) pairs.push_back({t, p}); calculate(); }
    void some_pairs(int kind) { lists = false; switch (kind) { case 0: pairs = {{T(0), P(0)}}; break; case 1: pairs = {{T(0), P(0)}, {T(1), P(1)}}; break; case 2: pairs = {{T(0), P(1)}, {T(1), P(0)}, {T(1), P(1)}}; break; default: pairs = {{T(1), P(1)}, {T(0), P(1)}, {T(2), P(0)}, {T(0), P(0)}}; } calculate(); }
    size_t index(int s, int k) const { return const_cast<ThermoBatch&>(b).preferences().loopOverTPpairsFirst ? pairs.size() * s + k : sy.size() * k + s; }
    void calculate() { size_t n = sy.size() * pairs.size(); int u = choose("undefined results", 2); for (size_t i = 0; i < n; ++i) { S s; int j = 0; for (auto& x : pr) { str nm = "r" + std::to_string(i) + "p" + std::to_string(j++); ThermoScalar q = quantity(nm, 10, 1e5, (u && (i + j) % 3 == 0) ? Reaktoro_::Status::notdefined : calculated, false); s.*x.second = q; } given.push_back(s); }
        o = new Output(lists ? W_<S>::run(b, Ts, Ps, sy, names(), given) : W_<S>::run(b, pairs, sy, names(), given)); }
    row names() { row r; for (auto& x : pr) r.push_back(x.first); return r; }
    void cell(const str& ob, const str& text, int s, int k, size_t p) { const ThermoScalar& q = given[index(s, k)].*pr[p].second; if (q.sta.first == Reaktoro_::Status::notdefined && b.preferences().writeNaNifNotDefinedValue) chk(ob + ": an undefined value", text == "NaN", text); else printed(ob + ": value", text, from_engine(unit[pr[p].first], q.val), digits[pr[p].first], form); }
    str head(const str& p) { return p + "(" + unit[p].name + ")"; }
    ~Setup() { delete o; } };
template<class S> static void pairs_or_grid(Setup<S>& s) { int k = choose("pairs", 6); if (k < 4) s.some_pairs(k); else s.grid(2, k - 3); }
template<class S> static void rows() { fork_eq(false); TPvars(); Scratch d; Setup<S> s; pairs_or_grid(s); bool again = choose("a file before in another notation"); if (again) { int k = s.style; s.notation((k + 1) % 3); s.o->toCSV("before.csv"); d.files.push_back("before.csv"); s.notation(k % 3); } s.o->toCSV("f.csv"); auto t = load(d, "f.csv", s.sep); size_t n = s.pairs.size(), m = s.sy.size();
    chk("one row for each record and pair", t.size() == n * m + 1); if (t.size() != n * m + 1) return; row h = {"Symbol", str("T(") + s.ut.name + ")", str("P(") + s.up.name + ")"}; for (auto& x : s.pr) h.push_back(s.head(x.first)); chk("the header names symbol, temperature, pressure and properties with their units", t[0] == h);
    for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < n; ++k) { auto& r = t[1 + s.index(i, k)]; chk("as many cells as headers", r.size() == h.size()); if (r.size() != h.size()) return; chk("the row's symbol", r[0] == under(s.sy[i], s.sep), r[0]); printed("the row's temperature", r[1], s.pairs[k][0], s.digits["temperature"], s.form); printed("the row's pressure", r[2], s.pairs[k][1], s.digits["pressure"], s.form); for (size_t p = 0; p < s.pr.size(); ++p) s.cell("rows", r[3 + p], i, k, p); } cover("end"); }
template<class S> static void transposed() { fork_eq(false); TPvars(); Scratch d; Setup<S> s; pairs_or_grid(s); s.o->toCSVTransposed("f.csv"); auto t = load(d, "f.csv", s.sep); size_t n = s.pairs.size(), m = s.sy.size(), q = s.pr.size(); chk("one row for each property and pair", t.size() == n * q + 1); if (t.size() != n * q + 1) return;
    row h = {"Property", str("T(") + s.ut.name + ")", str("P(") + s.up.name + ")"}; for (auto& x : s.sy) h.push_back(under(x, s.sep)); chk("the header names property, temperature, pressure and records", t[0] == h); for (size_t p = 0; p < q; ++p) for (size_t k = 0; k < n; ++k) { auto& r = t[1 + (s.b.preferences().loopOverTPpairsFirst ? n * p + k : q * k + p)]; chk("as many cells as headers", r.size() == h.size()); if (r.size() != h.size()) return; chk("the row's property", r[0] == s.head(s.pr[p].first), r[0]); printed("the row's temperature", r[1], s.pairs[k][0], s.digits["temperature"], s.form); printed("the row's pressure", r[2], s.pairs[k][1], s.digits["pressure"], s.form); for (size_t i = 0; i < m; ++i) s.cell("transposed", r[3 + i], i, k, p); } cover("end"); }
template<class S> static void grids() { fork_eq(false); TPvars(); Scratch d; Setup<S> s; pairs_or_grid(s); bool tf = s.b.preferences().loopTemperatureThenPressure; s.o->toCSVPropertyGrid("f.csv"); auto pos = [](const vec& v, double x) { for (size_t i = 0; i < v.size(); ++i) if (vf::same(v[i], x)) return (int)i; return -1; }; vec ts, ps; for (auto& x : s.pairs) { if (pos(ts, x[0]) < 0) ts.push_back(x[0]); if (pos(ps, x[1]) < 0) ps.push_back(x[1]); } vec& R = tf ? ts : ps; vec& C = tf ? ps : ts; str rn = tf ? "temperature" : "pressure", cn = tf ? "pressure" : "temperature";
    for (size_t p = 0; p < s.pr.size(); ++p) { auto t = load(d, s.pr[p].first + "_f.csv", s.sep); chk("a file for each property", !t.empty()); if (t.empty()) return; chk("the header has each column", t[0].size() == 2 + C.size()); if (t[0].size() != 2 + C.size()) return; str T = str("T(") + s.ut.name + ")", P = str("P(") + s.up.name + ")"; chk("the header names symbol, temperature and pressure", t[0][0] == "Symbol" && t[0][1] == (tf ? T + "_" + P : P + "_" + T)); for (size_t c = 0; c < C.size(); ++c) printed("the column's header", t[0][2 + c], C[c], s.digits[cn], s.form);
        if (!s.b.preferences().loopOverTPpairsFirst) { chk("no grid, but a statement that there is none", t.size() == 2 && t[1].size() == 1); continue; }
        chk("one row for each record and row value", t.size() == 1 + s.sy.size() * R.size()); if (t.size() != 1 + s.sy.size() * R.size()) return; for (size_t i = 0; i < s.sy.size(); ++i) for (size_t r = 0; r < R.size(); ++r) { auto& x = t[1 + R.size() * i + r]; chk("as many cells as headers", x.size() == 2 + C.size()); if (x.size() != 2 + C.size()) return; chk("the row's symbol", x[0] == under(s.sy[i], s.sep), x[0]); printed("the row's value", x[1], R[r], s.digits[rn], s.form); for (size_t c = 0; c < C.size(); ++c) { int k = -1; for (size_t j = 0; j < s.pairs.size(); ++j) if (vf::same(s.pairs[j][0], tf ? R[r] : C[c]) && vf::same(s.pairs[j][1], tf ? C[c] : R[r])) k = j; if (k < 0) chk("a cell not calculated holds no number", x[2 + c] == "NaN" || x[2 + c].empty(), x[2 + c]); else s.cell("grid", x[2 + c], i, k, p); } } } cover("end"); }
CONTRACT(bounded_substance_rows, "Output::toCSV, CSVHeader, foutResults") { rows<TPS>(); }
CONTRACT(bounded_reaction_rows, "Output::toCSV, CSVHeader, foutResults") { rows<TPR>(); }
CONTRACT(bounded_substance_transposed, "Output::toCSVTransposed, CSVHeaderTransposed, foutResultsTransposed") { transposed<TPS>(); }
CONTRACT(bounded_reaction_transposed, "Output::toCSVTransposed, CSVHeaderTransposed, foutResultsTransposed") { transposed<TPR>(); }
CONTRACT(bounded_substance_grids, "Output::toCSVPropertyGrid, CSVHeaderPropertyGrid, foutPropertyGrid") { grids<TPS>(); }
CONTRACT(bounded_reaction_grids, "Output::toCSVPropertyGrid, CSVHeaderPropertyGrid, foutPropertyGrid") { grids<TPR>(); }
// the fixed-layout writer
static ThermoScalar q(const str& n) { return quantity(n, 10, 1e5, calculated, false); }
static void csv(const str& ob, const table& t, const row& head, int n, const row& symbols, std::function<vec(int)> want, bool exact = true) { chk(ob + ": a header and a row for each record", (int)t.size() == n + 1); if ((int)t.size() != n + 1) return; if (exact) chk(ob + ": the header", t[0] == head); chk(ob + ": as many headers as properties", t[0].size() == head.size()); for (int i = 0; i < n; ++i) { vec w = want(i); auto& r = t[1 + i]; chk(ob + ": as many cells as headers", r.size() == head.size() && w.size() + 1 == head.size()); if (r.size() != head.size() || w.size() + 1 != head.size()) return; chk(ob + ": symbol", r[0] == symbols[i], r[0]); for (size_t j = 0; j < w.size(); ++j) printed(ob + ": " + head[j + 1], r[j + 1], w[j], 6, 'g'); } }
CONTRACT(bounded_fixed_layout, "OutputToCSV::write*, open*, close*") { fork_eq(false); TPvars(); Scratch d; int n = choose("records", 3), kind = choose("kind", 3); bool again = choose("written before"); OutputToCSV o(str(d.dir) + "/"); row sy = {"A", "B"}; auto N = [](const str& a, int i) { return a + std::to_string(i); }; auto TP = [&](int i) { return vec{in(N("T", i), 0, 300), in(N("P", i), 1, 5000)}; };
    std::vector<ThermoScalar> Q[2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 12; ++j) Q[i].push_back(q(N("q" + std::to_string(i) + "_", j))); auto at = [&](int i, std::vector<int> order) { vec v = TP(i); for (int j : order) v.push_back(Q[i][j].val); return v; }; auto files = [&](const char* f) { d.files.push_back(f); return f; };
    for (int pass = again ? 0 : 1; pass < 2; ++pass) { if (kind == 0) { o.openThermoPropertiesSubstanceFile(files("s.csv")); for (int i = 0; i < (pass ? n : 1); ++i) { TPS t; auto& v = Q[i]; t.gibbs_energy = v[0]; t.enthalpy = v[1]; t.entropy = v[2]; t.heat_capacity_cp = v[3]; t.heat_capacity_cv = v[4]; t.volume = v[5]; t.helmholtz_energy = v[6]; t.internal_energy = v[7]; o.writeThermoPropertiesSubstance(sy[i], TP(i)[0], TP(i)[1], t); } o.closeThermoPropertiesSubstanceFile(); }
        if (kind == 1) { o.openPropertiesSolventFile(files("p.csv")); for (int i = 0; i < (pass ? n : 1); ++i) { PropertiesSolvent t; auto& v = Q[i]; t.density = v[0]; t.densityT = v[1]; t.densityP = v[2]; t.densityTT = v[3]; t.densityTP = v[4]; t.densityPP = v[5]; t.Alpha = v[6]; t.dAldT = v[7]; t.Beta = v[8]; o.writePropertiesSolvent(sy[i], TP(i)[0], TP(i)[1], t); } o.closePropertiesSolventFile(); }
        if (kind == 2) { o.openElectroPropertiesSolventFile(files("e.csv")); for (int i = 0; i < (pass ? n : 1); ++i) { ElectroPropertiesSolvent t; auto& v = Q[i]; t.bornN = v[0]; t.bornQ = v[1]; t.bornU = v[2]; t.bornX = v[3]; t.bornY = v[4]; t.bornZ = v[5]; t.epsilon = v[6]; t.epsilonP = v[7]; t.epsilonPP = v[8]; t.epsilonT = v[9]; t.epsilonTP = v[10]; t.epsilonTT = v[11]; o.writeElectroPropertiesSolvent(sy[i], TP(i)[0], TP(i)[1], t); } o.closeElectroPropertiesSolventFile(); } }
    if (n == 0) { cover("end"); return; } if (kind == 0) csv("substances", load(d, "s.csv", ','), {"Substance", "T(C)", "P(bar)", "G0(J/mol)", "H0(J/mol)", "S0(J/molK)", "Cp0(J/molK)", "Cv0(J/molK)", "V0(J/bar)", "A0(J/mol)", "U0(J/mol)"}, n, sy, [&](int i) { return at(i, {0, 1, 2, 3, 4, 5, 6, 7}); });
    if (kind == 1) csv("solvent", load(d, "p.csv", ','), {"Substance", "T(C)", "P(bar)", "Rho", "Rho_dT", "Rho_dP", "Rho_d2T", "Rho_dTdP", "Rho_d2P", "Alpha", "Alpha_dT", "Beta"}, n, sy, [&](int i) { return at(i, {0, 1, 2, 3, 4, 5, 6, 7, 8}); }, false);
    if (kind == 2) csv("dielectric", load(d, "e.csv", ','), {"Substance", "T(C)", "P(bar)", "bornN(Pa-2)", "bornQ(Pa-1)", "bornU(Pa-1K-1)", "bornX(K-2)", "bornY(K-1)", "bornZ", "eps", "eps_dP", "eps_d2P", "eps_dT", "eps_dTdP", "eps_d2T"}, n, sy, [&](int i) { return at(i, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}); }); cover("end"); }

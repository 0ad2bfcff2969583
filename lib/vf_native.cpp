#include "vf_native.hpp"
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
#include <algorithm>
#include <nlohmann/json.hpp>
namespace vf {
struct Def { std::string name; void (*f)(); };
static std::vector<Def>& defs() { static auto* d = new std::vector<Def>; return *d; }
Reg::Reg(const char* n, const char*, void (*f)()) { defs().push_back({n, f}); }
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
struct V { double v, lo, hi; std::map<std::string, std::string> der; };
static std::map<std::string, V> vars; static std::map<std::string, double> given; static bool sampled = false; static uint64_t seed = 1;
static std::vector<int> choices; static size_t cpos; static std::string cname;
static std::vector<std::pair<std::string, double>> pert;   // current perturbation
static std::vector<double> answers, dargs; static bool nested;
static double marker() { uint64_t b = 0x7ff80000deadbeefULL; double d; memcpy(&d, &b, 8); return d; }
static bool marked(double d) { uint64_t b; memcpy(&b, &d, 8); return (b & 0xffffffffULL) == 0xdeadbeefULL && d != d; }
static int pass; static size_t dpos; static std::vector<std::string> dvars;
static std::map<std::string, double> hs;
static double tol = 1e-7, hscale = 1; static int jitter = 0;
struct Fail { std::string ob; double a, b, rel; std::string note; }; static std::vector<Fail> fails; static long checked;
struct Drop {};
static double samp(const std::string& name, double lo, double hi) {
    uint64_t h = mix(seed * 1000003ULL + std::hash<std::string>()(cname + "/" + name)); double u = (h >> 11) * (1.0 / 9007199254740992.0); u = 0.002 + 0.996 * u; double r;
    if (lo > 0 && hi / lo > 1e3) r = std::exp(std::log(lo) + u * (std::log(hi) - std::log(lo)));
    else if (hi - lo > 1e4 && lo < 0 && hi > 0 && (mix(h) & 1)) { double m = std::pow(std::min(-lo, hi), u); r = (mix(h + 1) & 1) ? m : -m; } else r = lo + u * (hi - lo);
    char b[40]; snprintf(b, 40, "%.7g", r); double t = strtod(b, 0); return t > lo && t < hi ? t : r; }
static V& get(const std::string& name, double lo, double hi) { auto it = vars.find(name); if (it == vars.end()) { V v; v.lo = lo; v.hi = hi; v.v = given.count(name) ? given[name] : sampled ? samp(name, lo, hi) : 0.5 * (lo + hi); if (v.v <= lo && !given.count(name)) v.v = lo + 1e-3 * (hi - lo); if (jitter && v.v != 0) { uint64_t b; memcpy(&b, &v.v, 8); double t = v.v * (1 + 1e-8 * ((mix(b + jitter * 7919ULL) >> 11) * (1.0 / 9007199254740992.0) - 0.5)); if (t > lo && t < hi) v.v = t; } it = vars.emplace(name, v).first; } return it->second; }
static double atr(const std::string& name, size_t idx) { auto& v = vars.at(name); if (!idx) return v.v; auto& [pv, pd] = pert[idx - 1]; double s = atr(name, idx - 1); if (name == pv) return s + pd;
    double f = 1; std::string n = name; for (int k = 1; k < 6; ++k) { auto& w = vars.at(n); auto it = w.der.find(pv); if (it == w.der.end() || it->second.empty() || it->second == "0") break; n = it->second; f *= pd / k; if (n == pv) { s += f * atr(n, idx - 1); f *= pd / (k + 1); s += f; break; } s += f * atr(n, idx - 1); } return s; }
static double at(const std::string& name) { return atr(name, pert.size()); }
Real in(const std::string& n, nat lo, nat hi) { get(n, lo, hi); return at(n); }
Real opaque(const std::string& n, nat lo, nat hi, std::initializer_list<std::pair<std::string, std::string>> d) { V& v = get(n, lo, hi); for (auto& x : d) if (!x.second.empty() && x.second != "0") v.der[x.first] = x.second; return at(n); }
Real D(Real f, const std::string& var) { size_t k = dpos++; if (pass == 0) dvars.push_back(var); if (dargs.size() <= k) dargs.resize(k + 1, NAN); dargs[k] = f; return k < answers.size() ? answers[k] : marker(); }
static void rec(const std::string& ob, double a, double b, double rel, double lim, const std::string& note = "") { if (pass != 2 || marked(a) || marked(b)) return; ++checked; if (!(rel <= lim)) fails.push_back({ob, a, b, rel, note}); }
static double reld(double a, double b) { if (a == b || (std::isnan(a) && std::isnan(b))) return 0; return std::fabs(a - b) / (std::fabs(a) + std::fabs(b)); }
void eq(const std::string& o, Real a, Real b) { rec(o, a, b, reld(a, b), tol); }
void eqc(const std::string& o, Real a, Real b, nat t) { rec(o, a, b, a == b ? 0 : std::fabs(a / b - 1), std::max(t, tol)); }
void eqz(const std::string& o, Real a, Real s) { rec(o, a, s, s != 0 ? std::fabs(a / s) : std::fabs(a), tol); }
void le(const std::string& o, Real a, Real b) { rec(o, a, b, a <= b ? 0 : reld(a, b) + 1e-300, 0); }
void chk(const std::string& o, bool ok, const std::string& note) { rec(o, ok, 1, ok ? 0 : 1, 0.5, note); }
void printed(const std::string& o, const std::string& text, Real want, int digits, char form) { char b[400], f[8] = {'%', '.', '*', form, 0}; bool ok = false; for (double d : {0.0, 1e-11, -1e-11}) { snprintf(b, 400, f, digits, want * (1 + d)); ok = ok || text == b; } rec(o, ok, 1, ok ? 0 : 1, 0.5, text + " for " + b); }
void assume(bool c) { if (!c) throw Drop{}; }
int choose(const std::string& n, int k) { size_t i = cpos++; if (i < choices.size()) return choices[i]; return sampled ? (int)(mix(seed * 77 + i + std::hash<std::string>()(n)) % k) : 0; }
bool choose(const std::string& n) { return choose(n, 2) == 1; }
std::string stamp() { return cname; }
static void once(void (*f)(), int p, const std::vector<double>& ans) { pass = p; dpos = 0; cpos = 0; answers = ans; dargs.clear(); f(); }
// values of the D() calls of one evaluation at the current perturbation, nesting to the given depth
static std::vector<double> derivatives(void (*f)(), int depth) {
    std::vector<double> ans(dvars.size(), marker()); std::set<std::string> vs(dvars.begin(), dvars.end()); auto at0 = pert;
    for (auto& v : vs) { double h = hs[v]; std::map<int, std::vector<double>> m;
        for (int i : {-2, -1, 1, 2}) { pert = at0; bool hit = false; for (auto& q : pert) if (q.first == v) { q.second += i * h; hit = true; } if (!hit) pert.push_back({v, i * h}); std::vector<double> inner; if (depth > 1) inner = derivatives(f, depth - 1); once(f, 1, inner); m[i] = dargs; }
        for (size_t k = 0; k < dvars.size(); ++k) if (dvars[k] == v) { auto g = [&](int i) { auto& s = m[i]; return k < s.size() ? s[k] : NAN; }; bool mk = false; for (int i : {-2, -1, 1, 2}) mk = mk || marked(g(i)); if (mk) { nested = true; continue; } ans[k] = (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * h); } }
    pert = at0; return ans; }
static bool point(const Def& d, std::string& exc) {
    cname = d.name; vars.clear(); dvars.clear(); hs.clear(); fails.clear(); checked = 0; pert.clear();
    try { once(d.f, 0, {});
        std::set<std::string> vs(dvars.begin(), dvars.end());
        for (auto& v : vs) { auto& w = vars.at(v); double h = hscale * 1e-3 * std::fabs(w.v); if (h == 0) h = hscale * 1e-6 * (w.hi - w.lo); double room = std::min(w.v - w.lo, w.hi - w.v); if (room > 0 && 4 * h > room) h = hscale * room / 4.5; hs[v] = h; }
        nested = false; auto ans = derivatives(d.f, 1); if (nested) ans = derivatives(d.f, 2);
        once(d.f, 2, ans);
    } catch (Drop&) { pert.clear(); return false; } catch (std::exception& e) { exc = e.what(); pert.clear(); fails.push_back({"no_unexpected_exception", 0, 0, 1, e.what()}); }
    return true; }
}
int main(int argc, char** argv) {
    using namespace vf; using nlohmann::json; std::string pfile, only, ob, out = "/dev/stdout"; int n = 0; 
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--point") pfile = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--ob") ob = argv[++i]; else if (a == "--tol") tol = atof(argv[++i]); else if (a == "--sample") n = atoi(argv[++i]); else if (a == "--hscale") hscale = atof(argv[++i]); else if (a == "--jitter") jitter = atoi(argv[++i]); else if (a == "--out") out = argv[++i]; }
    json res = json::array();
    for (auto& d : defs()) { if (!only.empty() && d.name != only) continue; int reps = n ? n : 1;
        for (int r = 0; r < reps; ++r) { given.clear(); choices.clear();
            if (!pfile.empty()) { json p; std::ifstream(pfile) >> p; for (auto& kv : p.at("in").items()) if (kv.value().is_number()) given[kv.key()] = kv.value().get<double>(); for (auto& c : p.at("choices")) choices.push_back(c.get<int>()); } else { sampled = true; seed = r + 1; }
            std::string exc; bool ok = point(d, exc); json j; j["contract"] = d.name; j["in_contract"] = ok; j["checked"] = checked; j["seed"] = r + 1; if (!exc.empty()) j["exception"] = exc; j["fails"] = json::array();
            for (auto& f : fails) if (ob.empty() || f.ob == ob) j["fails"].push_back({{"obligation", f.ob}, {"left", std::isfinite(f.a) ? json(f.a) : json(std::to_string(f.a))}, {"right", std::isfinite(f.b) ? json(f.b) : json(std::to_string(f.b))}, {"rel", std::isfinite(f.rel) ? json(f.rel) : json("nan")}, {"note", f.note}});
            res.push_back(j); } }
    std::ofstream(out) << res.dump(1) << "\n"; return 0; }

// C24: a reaction equation, or a list of reactants, and the coefficients read from it.
#include "subst.hpp"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/Common/ParseJsonToData.h"
typedef std::map<std::string, double> M;
static const char* names[] = {"H2O@", "Ca+2", "CO3-2", "e-", "(UO2)3(OH)5+", "Al(OH)4-", "Quartz", "Eu+3", "Fe+3", "H+", "Nat-Chb-2", "I2,aq"};
struct Term { std::string text, name; double c; };
// one term as a user may write it; k-th of its reaction
static Term term(int k, int name, int style) { Term t; t.name = names[name % 12]; double c = in("c" + std::to_string(k), 0.1, 20); std::string n = text(c);
    switch (style) { case 0: return {t.name, t.name, 1}; case 1: return {n + t.name, t.name, c}; case 2: return {n + " " + t.name, t.name, c}; case 3: return {"-" + n + "\t" + t.name, t.name, -c}; case 4: return {"-" + t.name, t.name, -1}; case 5: return {"+" + t.name, t.name, 1}; default: return {"+" + n + "  " + t.name, t.name, c}; } }
static void same_coefficients(const Reaction& r, const M& want) { M got = r.reactants(); chk("as many substances as were written", got.size() == want.size()); for (auto& [n, c] : want) { chk("has every substance written", got.count(n) == 1, n); if (got.count(n)) eq("coefficient of a substance", got[n], c); } }
static std::string join(const std::vector<Term>& t, int space) { const char* sep[] = {" + ", "  +  ", "\t+ ", " +\n"}; std::string s; for (auto& x : t) s += (s.empty() ? "" : sep[space]) + x.text; return s; }
static const char* eqs[] = {" = ", "=", "  =  ", "\t=\t"};
CONTRACT(bounded_equation, "Reaction::fromEquation, regexp_split, strip_all, extractCoef") { fork_eq(false); int l = 1 + choose("left", 3), r = 1 + choose("right", 3), first = choose("first", 12), style = choose("style", 7), space = choose("space", 4); std::vector<Term> a, b; M want;
    for (int i = 0; i < l + r; ++i) { Term t = term(i, first + i, (style + i) % 7); (i < l ? a : b).push_back(t); want[t.name] = i < l ? -t.c : t.c; }
    Reaction R; bool named = choose("named"); if (named) R.setSymbol("R1"); std::string e = join(a, space) + eqs[space] + join(b, space); R.fromEquation(e); same_coefficients(R, want); chk("the equation is kept as written", R.equation() == e); chk("a reaction without symbol is called by its equation", R.symbol() == (named ? "R1" : e)); cover("end"); }
CONTRACT(bounded_repeated, "Reaction::fromEquation: a substance in several terms") { fork_eq(false); int w = choose("where", 3), name = choose("name", 12); Term x = term(0, name, 1 + choose("style1", 2)), y = term(1, name, choose("style2", 3)), z = term(2, name + 1, 0), u = term(3, name + 2, 1);
    std::vector<Term> a{z}, b{u}; (w == 2 ? b : a).push_back(x); (w == 0 ? a : b).push_back(y); M want; for (auto& t : a) want[t.name] = want[t.name] - t.c; for (auto& t : b) want[t.name] = want[t.name] + t.c; Reaction R; R.fromEquation(join(a, 0) + " = " + join(b, 0)); same_coefficients(R, want); cover("end"); }
CONTRACT(bounded_again, "Reaction::fromEquation on a reaction that has reactants") { fork_eq(false); Term x = term(0, 0, 1), y = term(1, 1, 1), z = term(2, choose("other", 3), 1), u = term(3, 4, 0); Reaction R; if (choose("set")) R.setReactants({{x.name, -x.c}, {y.name, y.c}}); else R.fromEquation(x.text + " = " + y.text); Reaction S = R; R.fromEquation(z.text + " = " + u.text); same_coefficients(R, {{z.name, -z.c}, {u.name, 1}}); same_coefficients(S, {{x.name, -x.c}, {y.name, y.c}}); cover("end"); }
CONTRACT(bounded_list, "parseReaction, getReactants") { fork_eq(false); int n = choose("n", 4), first = choose("first", 12); bool equation = choose("equation"), twice = n > 1 && choose("twice"); M want; std::string list; for (int i = 0; i < n; ++i) { std::string s = names[(first + (twice && i == n - 1 ? 0 : i)) % 12]; double c = in("c" + std::to_string(i), -20, 20); want[s] = (want.count(s) ? want[s] : double(0)) + c; list += (i ? ", " : "") + std::string("{\"symbol\": \"") + s + "\", \"coefficient\": " + text(c) + "}"; }
    std::string rec = "{\"symbol\": \"R1\", "; if (equation) rec += "\"equation\": \"Q + 2W = 3V\", "; if (n) rec += "\"reactants\": [" + list + "], "; rec += "\"name\": \"r\"}"; if (!n && equation) want = {{"Q", -1}, {"W", -2}, {"V", 3}}; same_coefficients(parseReaction(rec), want); same_coefficients(Reaction(rec), want); cover("end"); }

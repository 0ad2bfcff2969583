// The contract language, native side: the same harnesses compiled against the real code with the
// machine `double`, evaluated at one point (a counterexample being replayed, or a sampled point of
// the bounded fallback).
#pragma once
#include <string>
#include <initializer_list>
#include <utility>
#include <cmath>
#include <map>
namespace vf {
typedef double Real; typedef double nat;
Real in(const std::string& name, nat lo, nat hi);
Real opaque(const std::string& name, nat lo, nat hi, std::initializer_list<std::pair<std::string, std::string>> d);
Real D(Real f, const std::string& var);
void eq(const std::string& ob, Real a, Real b);
void eqc(const std::string& ob, Real a, Real b, nat tol);
void eqz(const std::string& ob, Real a, Real scale);
inline bool equal(Real a, Real b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)); }
void le(const std::string& ob, Real a, Real b);
void chk(const std::string& ob, bool ok, const std::string& note = "");
void printed(const std::string& ob, const std::string& text, Real want, int digits, char form);
void assume(bool c);
inline void fork_eq(bool) {}
inline void limit_branches(int) {}
inline void cover(const std::string&) {}
bool choose(const std::string& name);
int choose(const std::string& name, int n);
inline std::string text(Real a) { char b[40]; snprintf(b, 40, "%.17g", a); return b; }
inline constexpr bool symbolic = false;
std::string stamp();
struct Reg { Reg(const char* name, const char* fns, void (*f)()); };
inline bool same(Real a, Real b) { return a == b || (a != a && b != b); }
}
#define CONTRACT(name, fns) static void contract_##name(); static vf::Reg reg_##name(#name, fns, contract_##name); static void contract_##name()

// The contract language, symbolic side (used by harnesses compiled over symbolic reals).
#pragma once
#include "sym.hpp"
#include <initializer_list>
#include <utility>
namespace vf {
using sym::Real; using sym::nat;
// an arbitrary real in the open interval (lo,hi)
Real in(const std::string& name, nat lo, nat hi);
// the value a callee's contract returns: arbitrary in (lo,hi), with the partial derivatives the
// contract fixes; each is the name of an earlier input/opaque value
Real opaque(const std::string& name, nat lo, nat hi, std::initializer_list<std::pair<std::string, std::string>> d);
Real D(Real f, const std::string& var);             // partial derivative
void eq(const std::string& ob, Real a, Real b);      // obligation: a == b for every input on this path
void eqc(const std::string& ob, Real a, Real b, nat tol);  // a == c*b with a constant c, |c-1| <= tol
void eqz(const std::string& ob, Real a, Real scale);  // a == 0, judged numerically against scale
bool equal(Real a, Real b);                          // identically equal (decided, never forks)
void le(const std::string& ob, Real a, Real b);      // a <= b
void chk(const std::string& ob, bool ok, const std::string& note = "");   // obligation decided by execution
void printed(const std::string& ob, const std::string& text, Real want, int digits, char form);  // the text is the number, printed with that many digits in fixed (f), scientific (e) or general (g) notation
void assume(bool c);                                 // precondition: paths where it fails are dropped
void limit_branches(int n);                           // paths with more than n undecided branches from here on are dropped (n<0: no limit); cuts a loop at an arbitrary iteration
void fork_eq(bool on);                               // whether x==c is explored as a path of its own
void cover(const std::string& tag);                  // vacuity guard: the contract must reach this
bool choose(const std::string& name);                // nondeterministic choice, both explored
int  choose(const std::string& name, int n);
inline std::string text(Real a) { return sym::text(a.id); }   // a decimal number that reads back as a
inline constexpr bool symbolic = true;
std::string stamp();                                 // unique path stamp
struct Reg { Reg(const char* name, const char* fns, void (*f)()); };
inline bool same(Real a, Real b) { return a.id == b.id; }
}
#define CONTRACT(name, fns) static void contract_##name(); static vf::Reg reg_##name(#name, fns, contract_##name); static void contract_##name()

// C01: operations on quantities carry exact derivatives and the not-defined mark.
#include "ts.hpp"
static void chain(const std::string& n, const ThermoScalar& r, double f, bool def) {
    eq(n + ".val", r.val, f); eq(n + ".ddt", r.ddt, D(f, "T")); eq(n + ".ddp", r.ddp, D(f, "P")); chk(n + ".status", (r.sta.first != notdefined) == def); }
static Status pick(const char* n) { static const Status s[] = {calculated, notdefined, Reaktoro_::read, assigned, initialized, outofbounds}; return s[choose(n, 6)]; }
static double ne0(const char* n) { double b = in(n, -1e4, 1e4); assume(b != 0); return b; }

CONTRACT(binary, "ThermoScalarBase operator+(q;q), operator-(q;q), operator*(q;q), operator/(q;q)") {
    TPvars(); Status sa = pick("sa"), sb = pick("sb"); bool d = sa && sb;
    ThermoScalar a = quantity("a", -1e4, 1e4, sa), b = quantity("b", -50, 50, sb);
    chain("add", a + b, a.val + b.val, d); chain("sub", a - b, a.val - b.val, d); chain("mul", a * b, a.val * b.val, d);
    assume(b.val != 0); chain("div", a / b, a.val / b.val, d); cover("end");
}
CONTRACT(inplace, "ThermoScalarBase::operator+=(q), operator-=(q), operator*=(q), operator/=(q)") {
    TPvars(); Status sa = pick("sa"), sb = pick("sb"); bool d = sa && sb;
    ThermoScalar a = quantity("a", -1e4, 1e4, sa), b = quantity("b", -50, 50, sb);
    { ThermoScalar x = a; ThermoScalar& r = (x += b); chain("add", x, a.val + b.val, d); chk("add.returns_self", &r == &x); }
    { ThermoScalar x = a; ThermoScalar& r = (x -= b); chain("sub", x, a.val - b.val, d); chk("sub.returns_self", &r == &x); }
    { ThermoScalar x = a; ThermoScalar& r = (x *= b); chain("mul", x, a.val * b.val, d); chk("mul.returns_self", &r == &x); }
    assume(b.val != 0);
    { ThermoScalar x = a; ThermoScalar& r = (x /= b); chain("div", x, a.val / b.val, d); chk("div.returns_self", &r == &x); }
    cover("end");
}
CONTRACT(aliased, "ThermoScalarBase::operator+=(q), operator-=(q), operator*=(q), operator/=(q) on itself") {
    TPvars(); ThermoScalar a = quantity("a", -1e4, 1e4);
    { ThermoScalar x = a; x += x; chain("add", x, a.val + a.val, true); } { ThermoScalar x = a; x -= x; chain("sub", x, a.val - a.val, true); }
    { ThermoScalar x = a; x *= x; chain("mul", x, a.val * a.val, true); } assume(a.val != 0); { ThermoScalar x = a; x /= x; chain("div", x, a.val / a.val, true); }
    ThermoScalar x = a; x = x; chain("self_assign", x, a.val, true);
}
CONTRACT(scalar, "ThermoScalarBase operator+ - * / with a number on either side") {
    TPvars(); Status sa = pick("sa"); bool d = sa; ThermoScalar a = quantity("a", -1e4, 1e4, sa); double c = in("c", -1e4, 1e4);
    chain("add_qn", a + c, a.val + c, d); chain("add_nq", c + a, a.val + c, d); chain("sub_qn", a - c, a.val - c, d); chain("sub_nq", c - a, c - a.val, d);
    chain("mul_qn", a * c, a.val * c, d); chain("mul_nq", c * a, a.val * c, d);
    { ThermoScalar x = a; x += c; chain("iadd", x, a.val + c, d); } { ThermoScalar x = a; x -= c; chain("isub", x, a.val - c, d); } { ThermoScalar x = a; x *= c; chain("imul", x, a.val * c, d); }
    if (choose("divide_by_number")) { assume(c != 0); chain("div_qn", a / c, a.val / c, d); ThermoScalar x = a; x /= c; chain("idiv", x, a.val / c, d); cover("qn"); }
    else { assume(a.val != 0); chain("div_nq", c / a, c / a.val, d); cover("nq"); }
}
CONTRACT(unary, "ThermoScalarBase unary + and -; conversion to double; copy and assignment") {
    TPvars(); Status sa = pick("sa"); ThermoScalar a = quantity("a", -1e4, 1e4, sa);
    chain("minus", -a, -a.val, sa); chain("plus", +a, a.val, sa);
    eq("to_double", double(a), a.val);
    ThermoScalar b(a); chain("copy", b, a.val, sa); chk("copy.status_kept", b.sta.first == sa); eq("copy.err", b.err, a.err);
    ThermoScalar c; c = a; chain("assign", c, a.val, sa); chk("assign.status_kept", c.sta.first == sa); eq("assign.err", c.err, a.err);
    double n = in("n", -1e4, 1e4); c = n; chain("assign_number", c, n, true); eq("assign_number.err", c.err, 0);
    ThermoScalar z; eq("default.val", z.val, 0); eq("default.ddt", z.ddt, 0); eq("default.ddp", z.ddp, 0); chk("default.status", z.sta.first == notdefined);
    ThermoScalar w(n); eq("from_number.val", w.val, n); eq("from_number.ddt", w.ddt, 0); eq("from_number.ddp", w.ddp, 0); eq("from_number.err", w.err, 0);
}
CONTRACT(coordinates, "Temperature(double), Pressure(double)") {
    double t = in("T", 273, 2000), p = in("P", 1, 1e9); Temperature T(t); Pressure P(p);
    chain("T", T, t, true); chain("P", P, p, true); eq("T.err", T.err, 0); eq("P.err", P.err, 0);
}
CONTRACT(elementary, "sqrt, pow(q;n), exp, log, log10 of ThermoScalarBase") {
    TPvars(); Status sa = pick("sa"); ThermoScalar a = quantity("a", 0, 1e3, sa); double n = in("n", -10, 10); bool d = sa;
    chain("sqrt", sqrt(a), std::sqrt(a.val), d); chain("exp", exp(a), std::exp(a.val), d); chain("log", log(a), std::log(a.val), d); chain("pow", pow(a, n), std::pow(a.val, n), d);
    ThermoScalar l = log10(a); double f = std::log10(a.val); eqc("log10.val", l.val, f, 1e-12); eqc("log10.ddt", l.ddt, D(f, "T"), 1e-12); eqc("log10.ddp", l.ddp, D(f, "P"), 1e-12); chk("log10.status", (l.sta.first != notdefined) == d);
    cover("end");
}
CONTRACT(negative_domain, "pow(q;n), exp of ThermoScalarBase with a negative value") {
    TPvars(); ThermoScalar a = quantity("a", -1e3, 0);
    chain("exp", exp(a), std::exp(a.val), true); chain("pow2", pow(a, 2), a.val * a.val, true); chain("pow3", pow(a, 3), a.val * a.val * a.val, true); chain("pow-2", pow(a, -2), 1 / (a.val * a.val), true);
}
CONTRACT(zero_value, "operator*(q;q), operator*(n;q), operator+ at value zero; sqrt, pow at zero") {
    TPvars(); ThermoScalar a = quantity("a", -10, 10), b = quantity("b", -10, 10); assume(a.val == 0); double n = in("n", 1, 10);
    chain("mul", a * b, a.val * b.val, true); chain("mul_r", b * a, a.val * b.val, true); chain("mul_n", n * a, n * a.val, true); ThermoScalar x = a; x *= b; chain("imul", x, a.val * b.val, true); x = b; x *= a; chain("imul_r", x, a.val * b.val, true);
    x = a; x *= n; chain("imul_n", x, n * a.val, true);
    ThermoScalar p = pow(a, 2); chain("pow2", p, a.val * a.val, true); p = sqrt(a); eq("sqrt.val", p.val, 0); cover("end");
}
CONTRACT(general_power, "pow(q;q)") {
    TPvars(); Status sa = pick("sa"), sb = pick("sb"); ThermoScalar a = quantity("a", 0, 100, sa), b = quantity("b", -5, 5, sb);
    chain("pow", pow(a, b), std::pow(a.val, b.val), sa && sb);
}
CONTRACT(comparisons, "operator< <= > >= == != between quantities and with numbers") {
    TPvars(); ThermoScalar a = quantity("a", -10, 10, pick("sa")), b = quantity("b", -10, 10); double n = in("n", -10, 10); double x = a.val, y = b.val;
    switch (choose("with", 3)) {
    case 0: { bool l = x < y, e = x == y; chk("<", (a < b) == l); chk("<=", (a <= b) == (l || e)); chk(">", (a > b) == !(l || e)); chk(">=", (a >= b) == !l); chk("==", (a == b) == e); chk("!=", (a != b) == !e); cover(l ? "less" : "greater"); break; }
    case 1: { bool l = x < n, e = x == n; chk("<n", (a < n) == l); chk("<=n", (a <= n) == (l || e)); chk(">n", (a > n) == !(l || e)); chk(">=n", (a >= n) == !l); chk("==n", (a == n) == e); chk("!=n", (a != n) == !e); break; }
    case 2: { bool l = n < x, e = n == x; chk("n<", (n < a) == l); chk("n<=", (n <= a) == (l || e)); chk("n>", (n > a) == !(l || e)); chk("n>=", (n >= a) == !l); chk("n==", (n == a) == e); chk("n!=", (n != a) == !e); break; } }
}
CONTRACT(comparisons_equal, "operator< <= > >= == != on equal values") {
    TPvars(); ThermoScalar a = quantity("a", -10, 10), b(a); b.ddt = in("other", -1, 1); double n = a.val;
    chk("<", !(a < b)); chk("<=", a <= b); chk(">", !(a > b)); chk(">=", a >= b); chk("==", a == b); chk("!=", !(a != b));
    chk("<n", !(a < n)); chk("<=n", a <= n); chk(">n", !(a > n)); chk(">=n", a >= n); chk("==n", a == n); chk("!=n", !(a != n)); chk("n<", !(n < a)); chk("n<=", n <= a); chk("n>", !(n > a)); chk("n>=", n >= a); chk("n==", n == a); chk("n!=", !(n != a));
}

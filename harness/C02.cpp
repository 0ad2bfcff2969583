// C02: the uncertainty of a result is the first-order propagated absolute error.
#include "ts.hpp"
static void err1(const std::string& n, const ThermoScalar& r, double f, double ea) { eq(n, r.err, fabs(D(f, "a") * ea)); le(n + ".nonneg", 0, r.err); }
static void err2(const std::string& n, const ThermoScalar& r, double f, double ea, double eb) { double x = D(f, "a") * ea, y = D(f, "b") * eb; eq(n, r.err, std::sqrt(x * x + y * y)); le(n + ".nonneg", 0, r.err); }
CONTRACT(binary, "ThermoScalarBase operator+ - * / and in-place forms (quantity;quantity)") {
    TPvars(); ThermoScalar a = quantity("a", -1e4, 1e4), b = quantity("b", -50, 50); double x = a.val, y = b.val;
    err2("add", a + b, x + y, a.err, b.err); err2("sub", a - b, x - y, a.err, b.err); err2("mul", a * b, x * y, a.err, b.err);
    ThermoScalar z = a; z += b; err2("iadd", z, x + y, a.err, b.err); z = a; z -= b; err2("isub", z, x - y, a.err, b.err); z = a; z *= b; err2("imul", z, x * y, a.err, b.err);
    assume(y != 0); err2("div", a / b, x / y, a.err, b.err); z = a; z /= b; err2("idiv", z, x / y, a.err, b.err); cover("end");
}
CONTRACT(zero_value, "operator* and operator/ of a quantity with value zero") {
    TPvars(); ThermoScalar a = quantity("a", -10, 10), b = quantity("b", -10, 10); assume(a.val == 0); double n = in("n", -10, 10);
    ThermoScalar m = a * b; eq("mul", m.err, fabs(a.err * b.val)); m = b * a; eq("mul_r", m.err, fabs(a.err * b.val)); m = a; m *= b; eq("imul", m.err, fabs(a.err * b.val)); m = b; m *= a; eq("imul_r", m.err, fabs(a.err * b.val));
    m = n * a; eq("mul_n", m.err, fabs(n * a.err)); m = a; m *= n; eq("imul_n", m.err, fabs(n * a.err)); assume(b.val != 0); m = a / b; eq("div", m.err, fabs(a.err / b.val)); m = a; m /= b; eq("idiv", m.err, fabs(a.err / b.val)); cover("end");
}
CONTRACT(scalar, "ThermoScalarBase operator+ - * / with exact numbers; unary; assignment of a number") {
    TPvars(); ThermoScalar a = quantity("a", -1e4, 1e4); double c = in("c", -1e4, 1e4), x = a.val; ThermoScalar z;
    err1("add_qn", a + c, x + c, a.err); err1("add_nq", c + a, x + c, a.err); err1("sub_qn", a - c, x - c, a.err); err1("sub_nq", c - a, c - x, a.err); err1("mul_qn", a * c, x * c, a.err); err1("mul_nq", c * a, x * c, a.err); err1("neg", -a, -x, a.err); err1("plus", +a, x, a.err);
    z = a; z += c; err1("iadd", z, x + c, a.err); z = a; z -= c; err1("isub", z, x - c, a.err); z = a; z *= c; err1("imul", z, x * c, a.err);
    if (choose("nq")) { assume(x != 0); err1("div_nq", c / a, c / x, a.err); cover("nq"); } else { assume(c != 0); err1("div_qn", a / c, x / c, a.err); z = a; z /= c; err1("idiv", z, x / c, a.err); cover("qn"); }
    z = c; eq("assign_number", z.err, 0);
}
CONTRACT(elementary, "sqrt, pow(q;n), exp, log, log10") {
    TPvars(); ThermoScalar a = quantity("a", 0, 1e3); double n = in("n", -10, 10), x = a.val;
    err1("sqrt", sqrt(a), std::sqrt(x), a.err); err1("exp", exp(a), std::exp(x), a.err); err1("log", log(a), std::log(x), a.err); err1("pow", pow(a, n), std::pow(x, n), a.err);
    ThermoScalar l = log10(a); eqc("log10", l.err, fabs(D(std::log10(x), "a") * a.err), 1e-12); le("log10.nonneg", 0, l.err);
}
CONTRACT(negative_domain, "pow(q;n), exp with a negative value") { TPvars(); ThermoScalar a = quantity("a", -1e3, 0); double x = a.val; err1("exp", exp(a), std::exp(x), a.err); err1("pow2", pow(a, 2), x * x, a.err); err1("pow3", pow(a, 3), x * x * x, a.err); err1("pow-1", pow(a, -1), 1 / x, a.err); }
CONTRACT(general_power, "pow(q;q)") { TPvars(); ThermoScalar a = quantity("a", 0, 100), b = quantity("b", -5, 5); err2("pow", pow(a, b), std::pow(a.val, b.val), a.err, b.err); }
CONTRACT(construction, "ThermoScalarBase(val;ddt;ddp;err;sta)") { double e = in("e", -10, 10); ThermoScalar a(in("v", -1, 1), in("t", -1, 1), in("p", -1, 1), e, {calculated, ""}); le("nonneg", 0, a.err); eq("err", a.err, fabs(e)); ThermoScalar b(a); eq("copy", b.err, a.err); Temperature t(3.); eq("T", t.err, 0); }

// Symbolic reals: the value domain the real sources are executed over by the verifier.
// Included before `double` is redefined; `nat` is the machine double.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <ostream>
#include <type_traits>
#include <stdexcept>
#include <limits>
#include <functional>

namespace sym {
typedef double nat;
typedef uint32_t Id;

struct Undecidable : std::runtime_error { using std::runtime_error::runtime_error; };
struct BadCompare : std::runtime_error { using std::runtime_error::runtime_error; };   // an undefined value decides a branch
struct PathAbort { std::string why; };          // the path is outside the contract's precondition
struct Infeasible { };                          // the explorer found no way to continue this path

Id c_nat(nat v);
Id c_int(long long v);
Id c_uint(unsigned long long v);
Id c_rat(long long n, long long d);
Id add(Id, Id); Id sub(Id, Id); Id mul(Id, Id); Id div(Id, Id); Id neg(Id);
Id powr(Id, Id);                 // general power
Id exp_(Id); Id log_(Id); Id sqrt_(Id); Id uf_(int kind, Id);
Id abs_(Id);
bool less(Id a, Id b);           // a < b  (decides, may fork the path)
bool equal(Id a, Id b);
bool is_nan(Id);
nat  concrete(Id);               // value of a constant expression; throws Undecidable otherwise
std::string show(Id, int budget = 200);
std::string token(Id);           // round-trippable text form
bool is_token(const std::string&, Id&);
std::string text(Id);            // the number that stands for it in a text
Id from_native_token(nat v);     // maps a registered native stand-in to its symbol

template<class T> using if_arith = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, int>::type;

struct Real {
    Id id;
    Real() = default;
    struct raw {}; Real(raw, Id i) : id(i) {}
    template<class T, if_arith<T> = 0> Real(T v) {
        if constexpr (std::is_floating_point<T>::value) id = c_nat((nat)v);
        else if constexpr (std::is_enum<T>::value) id = c_int((long long)v);
        else if constexpr (std::is_signed<T>::value) id = c_int((long long)v);
        else id = c_uint((unsigned long long)v);
    }
    template<class T, if_arith<T> = 0> explicit operator T() const {
        if constexpr (std::is_same<T, bool>::value) return !equal(id, 0);
        else return (T)concrete(id);
    }
    Real& operator+=(Real o) { id = add(id, o.id); return *this; }
    Real& operator-=(Real o) { id = sub(id, o.id); return *this; }
    Real& operator*=(Real o) { id = mul(id, o.id); return *this; }
    Real& operator/=(Real o) { id = div(id, o.id); return *this; }
    Real& operator++() { return *this += 1; }
    Real& operator--() { return *this -= 1; }
    Real operator++(int) { Real r = *this; *this += 1; return r; }
    Real operator--(int) { Real r = *this; *this -= 1; return r; }
    Real operator-() const { return Real(raw{}, neg(id)); }
    Real operator+() const { return *this; }
    bool operator!() const { return equal(id, 0); }
};
static_assert(std::is_trivially_copyable<Real>::value, "");
inline Real R(Id i) { return Real(Real::raw{}, i); }

#define SYM_BIN(op, fn) \
  inline Real operator op(Real a, Real b) { return R(fn(a.id, b.id)); } \
  template<class T, if_arith<T> = 0> inline Real operator op(Real a, T b) { return a op Real(b); } \
  template<class T, if_arith<T> = 0> inline Real operator op(T a, Real b) { return Real(a) op b; }
SYM_BIN(+, add) SYM_BIN(-, sub) SYM_BIN(*, mul) SYM_BIN(/, div)
#define SYM_CMP(op, expr) \
  inline bool operator op(Real a, Real b) { return expr; } \
  template<class T, if_arith<T> = 0> inline bool operator op(Real a, T b) { return a op Real(b); } \
  template<class T, if_arith<T> = 0> inline bool operator op(T a, Real b) { return Real(a) op b; }
SYM_CMP(<, less(a.id, b.id)) SYM_CMP(>, less(b.id, a.id))
SYM_CMP(<=, !less(b.id, a.id)) SYM_CMP(>=, !less(a.id, b.id))
SYM_CMP(==, equal(a.id, b.id)) SYM_CMP(!=, !equal(a.id, b.id))

inline Real pow(Real a, Real b) { return R(powr(a.id, b.id)); }
template<class T, if_arith<T> = 0> inline Real pow(Real a, T b) { return pow(a, Real(b)); }
template<class T, if_arith<T> = 0> inline Real pow(T a, Real b) { return pow(Real(a), b); }
inline Real exp(Real a) { return R(exp_(a.id)); }
inline Real log(Real a) { return R(log_(a.id)); }
inline Real log10(Real a) { return R(div(log_(a.id), log_(c_int(10)))); }
inline Real sqrt(Real a) { return R(sqrt_(a.id)); }
inline Real hypot(Real a, Real b) { return sqrt(a * a + b * b); }
inline Real fma(Real a, Real b, Real c) { return a * b + c; }
inline Real expm1(Real a) { return exp(a) - 1; }
inline Real log1p(Real a) { return log(a + 1); }
inline Real exp2(Real a) { return pow(Real(2), a); }
inline Real log2(Real a) { return log(a) / log(Real(2)); }
inline bool signbit(Real a) { return a < 0; }
inline Real cbrt(Real a) { return R(powr(a.id, c_rat(1, 3))); }
inline Real fabs(Real a) { return R(abs_(a.id)); }
inline Real abs(Real a) { return R(abs_(a.id)); }
inline bool isnan(Real a) { return is_nan(a.id); }
inline bool isinf(Real a) { return false; }
inline bool isfinite(Real a) { return !is_nan(a.id); }
template<class T, if_arith<T> = 0> inline Real hypot(Real a, T b) { return hypot(a, Real(b)); }
template<class T, if_arith<T> = 0> inline Real hypot(T a, Real b) { return hypot(Real(a), b); }
inline Real copysign(Real a, Real b) { return b < 0 ? -R(abs_(a.id)) : R(abs_(a.id)); }
inline Real fmax(Real a, Real b) { return a < b ? b : a; }
inline Real fmin(Real a, Real b) { return b < a ? b : a; }
#define SYM_MIX(f) template<class T, if_arith<T> = 0> inline Real f(Real a, T b) { return f(a, Real(b)); } \
  template<class T, if_arith<T> = 0> inline Real f(T a, Real b) { return f(Real(a), b); }
SYM_MIX(fmax) SYM_MIX(fmin)
inline Real sin(Real a) { return R(uf_(0, a.id)); }
inline Real cos(Real a) { return R(uf_(1, a.id)); }
inline Real acos(Real a) { return R(uf_(2, a.id)); }
inline Real tanh(Real a) { return R(uf_(3, a.id)); }
inline Real atan(Real a) { return R(uf_(4, a.id)); }
inline Real floor(Real a) { return R(uf_(5, a.id)); }
inline Real ceil(Real a) { return R(uf_(6, a.id)); }
inline Real round(Real a) { return R(uf_(7, a.id)); }
inline Real tan(Real a) { return R(uf_(8, a.id)); }
std::ostream& operator<<(std::ostream&, Real);
}

namespace std {
using sym::pow; using sym::exp; using sym::log; using sym::log10; using sym::sqrt; using sym::cbrt; using sym::fabs; using sym::abs;
using sym::isnan; using sym::isinf; using sym::isfinite; using sym::fmax; using sym::fmin;
using sym::hypot; using sym::fma; using sym::expm1; using sym::log1p; using sym::exp2; using sym::log2; using sym::signbit; using sym::copysign;
using sym::sin; using sym::cos; using sym::acos; using sym::tanh; using sym::atan; using sym::floor; using sym::ceil; using sym::round; using sym::tan;
inline string to_string(sym::Real r) { return sym::token(r.id); }
template<> class numeric_limits<sym::Real> {
public:
  static constexpr bool is_specialized = true; static constexpr bool is_signed = true; static constexpr bool is_integer = false; static constexpr bool has_quiet_NaN = true;
  static sym::Real epsilon() { return numeric_limits<sym::nat>::epsilon(); }
  static sym::Real max() { return numeric_limits<sym::nat>::max(); }
  static sym::Real min() { return numeric_limits<sym::nat>::min(); }
  static sym::Real lowest() { return numeric_limits<sym::nat>::lowest(); }
  static sym::Real infinity() { return numeric_limits<sym::nat>::infinity(); }
  static sym::Real quiet_NaN() { return numeric_limits<sym::nat>::quiet_NaN(); }
};
}
typedef sym::Real symReal;

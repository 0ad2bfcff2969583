// Verification-condition engine: hash-consed real expressions, path exploration by re-execution,
// symbolic differentiation, and discharge of equalities by identity testing over finite fields.
#include <deque>
#include "vf.hpp"
#include <gmpxx.h>
#include <quadmath.h>
#include <unordered_map>
#include <unordered_set>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <chrono>
#include <set>
#include <iostream>
#include <sstream>
#include <fstream>
#include <memory>
#include <csetjmp>
#include <z3++.h>
typedef __float128 quad;
typedef unsigned __int128 u128;
typedef uint64_t u64;

namespace sym {
enum Op : uint8_t { CONST, VAR, ADD, MUL, POW, EXP, LOG, UF, BAD };
struct Node { Op op; Id a, b; int k; };
struct Iv { nat lo, hi; };

static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }

struct VarInfo { std::string name; nat lo, hi; std::map<int, Id> der; };

struct Pool {
    std::deque<Node> n;
    std::deque<mpq_class> q; std::map<mpq_class, int> qi;
    std::unordered_map<u64, std::vector<Id>> tab;
    std::vector<VarInfo> vars; std::map<std::string, int> vi;
    std::vector<Iv> iv; std::vector<char> ivok;
    std::vector<std::unordered_map<Id, Id>> dmemo;
    Id bad;
    Pool() { cst(mpq_class(0)); cst(mpq_class(1)); cst(mpq_class(-1)); bad = mk(BAD, 0, 0, 0); }
    Id mk(Op op, Id a, Id b, int k) {
        u64 h = mix(mix(mix(op) + a) + ((u64)b << 32) + (u64)(uint32_t)k);
        auto& v = tab[h];
        for (Id i : v) { Node& m = n[i]; if (m.op == op && m.a == a && m.b == b && m.k == k) return i; }
        n.push_back({op, a, b, k}); v.push_back(n.size() - 1); return n.size() - 1;
    }
    int qidx(const mpq_class& x) { auto it = qi.find(x); if (it != qi.end()) return it->second; q.push_back(x); int i = q.size() - 1; qi[x] = i; return i; }
    Id cst(const mpq_class& x) { return mk(CONST, 0, 0, qidx(x)); }
    const mpq_class& val(Id i) { return q[n[i].k]; }
    bool isc(Id i) { return n[i].op == CONST; }
};
static Pool& P() { static Pool* p = new Pool; return *p; }
static inline void valid(Id i) { if (i >= P().n.size()) throw Undecidable("read of an uninitialised real"); }
static Id ck(Id i) { if (i >= P().n.size()) return P().bad; return i; }

// The rational a literal denotes: the simplest fraction with a small denominator that rounds to it,
// otherwise its shortest decimal representation.
static mpq_class reify(nat v) {
    if (v == (nat)(long long)v && std::fabs(v) < 9e15) return mpq_class((long)v);
    char buf[64]; int prec = 17;
    for (int p = 1; p <= 17; ++p) { snprintf(buf, sizeof buf, "%.*e", p - 1, v); if (strtod(buf, nullptr) == v) { prec = p; break; } }
    if (prec >= 15) {   // the rounding error of a product of short literals folded by the compiler
        for (int p = 1; p <= 11; ++p) { char b2[64]; snprintf(b2, sizeof b2, "%.*e", p - 1, v); if (std::fabs(strtod(b2, nullptr) - v) <= 4 * (std::nextafter(std::fabs(v), INFINITY) - std::fabs(v))) { memcpy(buf, b2, 64); prec = p; break; } }
    }
    if (prec >= 15) {   // looks like the rounding of a quotient
        nat x = std::fabs(v); long h0 = 0, h1 = 1, k0 = 1, k1 = 0; nat y = x;
        for (int i = 0; i < 20; ++i) {
            nat f = std::floor(y); if (f > 1e9) break;
            long a = (long)f; long h2 = a * h1 + h0, k2 = a * k1 + k0; if (k2 > 2000 || h2 > 100000000) break;
            h0 = h1; h1 = h2; k0 = k1; k1 = k2;
            if ((nat)h1 / (nat)k1 == x) { mpq_class r(h1, k1); r.canonicalize(); return v < 0 ? mpq_class(-r) : r; }
            if (y == f) break; y = 1 / (y - f);
        }
    }
    std::string s(buf); auto e = s.find('e'); long ex = strtol(s.c_str() + e + 1, nullptr, 10); std::string m = s.substr(0, e);
    bool ng = m[0] == '-'; if (ng) m = m.substr(1);
    auto dot = m.find('.'); if (dot != std::string::npos) { ex -= (long)(m.size() - dot - 1); m.erase(dot, 1); }
    mpz_class num(m, 10), p10; mpz_ui_pow_ui(p10.get_mpz_t(), 10, std::labs(ex));
    mpq_class r = ex >= 0 ? mpq_class(num * p10) : mpq_class(num, p10); r.canonicalize(); return ng ? mpq_class(-r) : r;
}
static std::unordered_map<nat, Id>& natmap() { static auto* m = new std::unordered_map<nat, Id>; return *m; }
Id c_nat(nat v) {
    if (std::isnan(v) || std::isinf(v)) return P().bad;
    if (!natmap().empty()) { auto it = natmap().find(v); if (it != natmap().end()) return it->second; }
    static std::unordered_map<u64, Id> memo; u64 b; memcpy(&b, &v, 8);
    auto it = memo.find(b); if (it != memo.end()) return it->second;
    if (std::fabs(v - std::log(10.0)) < 1e-15) return memo[b] = log_(c_int(10));   // ln 10 to the last digit a double holds
    return memo[b] = P().cst(reify(v));
}
Id c_int(long long v) { return P().cst(mpq_class((long)v)); }
Id c_uint(unsigned long long v) { return P().cst(mpq_class((unsigned long)v)); }
Id c_rat(long long n, long long d) { mpq_class r((long)n, (long)d); r.canonicalize(); return P().cst(r); }

static mpq_class qpow(const mpq_class& b, long e) {
    mpq_class r; mpz_class a, d; unsigned long u = std::labs(e);
    mpz_pow_ui(a.get_mpz_t(), b.get_num_mpz_t(), u); mpz_pow_ui(d.get_mpz_t(), b.get_den_mpz_t(), u);
    r = e >= 0 ? mpq_class(a, d) : mpq_class(d, a); r.canonicalize(); return r;
}
// linear view of a term: coefficient * rest
static void coef(Id x, mpq_class& c, Id& rest) {
    Pool& p = P();
    if (p.isc(x)) { c = p.val(x); rest = 1; return; }
    if (p.n[x].op == MUL && p.isc(p.n[x].a)) { c = p.val(p.n[x].a); rest = p.n[x].b; return; }
    c = 1; rest = x;
}
static Id mk_mul2(Id a, Id b) { Pool& p = P(); if (p.isc(b) || (!p.isc(a) && a > b)) std::swap(a, b); return p.mk(MUL, a, b, 0); }

Id mul(Id a, Id b) {
    a = ck(a); b = ck(b); Pool& p = P();
    if (a == p.bad || b == p.bad) return p.bad;
    if (a == 0 || b == 0) return 0;
    if (a == 1) return b; if (b == 1) return a;
    mpq_class ca, cb; Id ra, rb; coef(a, ca, ra); coef(b, cb, rb);
    mpq_class c = ca * cb; Id r;
    if (ra == 1) r = rb; else if (rb == 1) r = ra;
    else {
        // merge equal bases: x^m * x^n
        auto base = [&](Id x, mpq_class& e) -> Id { if (p.n[x].op == POW) { e = p.q[p.n[x].k]; return p.n[x].a; } e = 1; return x; };
        mpq_class e1, e2; Id b1 = base(ra, e1), b2 = base(rb, e2);
        if (b1 == b2) { mpq_class s = e1 + e2; Id t;
            if (s == 0) t = 1; else if (s == 1) t = b1; else t = p.mk(POW, b1, 0, p.qidx(s));
            if (p.n[b1].op == MUL && s.get_den() == 1 && t != b1 && t != 1) t = powr(b1, p.cst(s));
            r = t; }
        else r = mk_mul2(ra, rb);
    }
    if (c == 1) return r; if (r == 1) return p.cst(c);
    mpq_class cr; Id rr; coef(r, cr, rr);
    if (cr != 1) { c *= cr; r = rr; }
    if (c == 1) return r;
    return p.mk(MUL, p.cst(c), r, 0);
}
Id neg(Id a) { return mul(2, a); }
Id add(Id a, Id b) {
    a = ck(a); b = ck(b); Pool& p = P();
    if (a == p.bad || b == p.bad) return p.bad;
    if (a == 0) return b; if (b == 0) return a;
    mpq_class ca, cb; Id ra, rb; coef(a, ca, ra); coef(b, cb, rb);
    if (ra == rb) return mul(p.cst(ca + cb), ra);
    // (x + s) + (-x) and similar one-level cancellations
    for (int s = 0; s < 2; ++s) {
        Id sum = s ? b : a, t = s ? a : b;
        if (p.n[sum].op == ADD) {
            Id l = p.n[sum].a, r = p.n[sum].b; mpq_class cl, cr, ct; Id rl, rr, rt; coef(l, cl, rl); coef(r, cr, rr); coef(t, ct, rt);
            if (rl == rt) return add(mul(p.cst(cl + ct), rl), r);
            if (rr == rt) return add(l, mul(p.cst(cr + ct), rr));
        }
    }
    if (a > b) std::swap(a, b);
    return p.mk(ADD, a, b, 0);
}
Id sub(Id a, Id b) { return add(a, neg(b)); }

static Iv ival(Id i);
static int path_sign(Id i); static bool g_use_path = false;   // set while a term is rebuilt with what the path condition says about signs
static bool positive(Id i) { return ival(i).lo > 0 || (g_use_path && path_sign(i) == 4); }

static Id pow_q(Id a, const mpq_class& e) {
    Pool& p = P();
    if (a == p.bad) return a;
    if (e == 0) return 1; if (e == 1) return a;
    if (a == 1) return 1;
    if (a == 0) return e > 0 ? 0 : p.bad;
    bool integer = e.get_den() == 1;
    if (p.isc(a) && integer && std::labs(e.get_num().get_si()) < 400) return p.cst(qpow(p.val(a), e.get_num().get_si()));
    if (p.isc(a) && !integer && p.val(a) > 0) {   // exact roots
        unsigned long d = e.get_den().get_ui(); mpz_class rn, rd;
        if (d < 20 && mpz_root(rn.get_mpz_t(), p.val(a).get_num_mpz_t(), d) && mpz_root(rd.get_mpz_t(), p.val(a).get_den_mpz_t(), d))
            return p.cst(qpow(mpq_class(rn, rd), e.get_num().get_si()));
    }
    const Node n = p.n[a];
    if (n.op == POW) {
        const mpq_class& f = p.q[n.k];
        if (integer && (f.get_den() == 1 || true)) { if (f.get_den() == 1 || positive(n.a)) return pow_q(n.a, f * e); }
        else if (positive(n.a)) return pow_q(n.a, f * e);
    }
    if (n.op == MUL) {
        if (integer) return mul(pow_q(n.a, e), pow_q(n.b, e));
        if (positive(n.a) && positive(n.b)) return mul(pow_q(n.a, e), pow_q(n.b, e));
    }
    if (n.op == EXP) return exp_(mul(p.cst(e), n.a));
    return p.mk(POW, a, 0, p.qidx(e));
}
Id div(Id a, Id b) {
    a = ck(a); b = ck(b); Pool& p = P();
    if (b == 0) return p.bad;
    return mul(a, pow_q(b, mpq_class(-1)));
}
Id powr(Id a, Id b) {
    a = ck(a); b = ck(b); Pool& p = P(); if (a == p.bad || b == p.bad) return p.bad;
    if (p.isc(b)) return pow_q(a, p.val(b));
    if (p.n[b].op == ADD) {   // a^(b+k) = a^k * a^b for the integer part k of the constant term
        std::vector<Id> st{b}, terms; while (!st.empty()) { Id x = st.back(); st.pop_back(); if (p.n[x].op == ADD && terms.size() < 64) { st.push_back(p.n[x].b); st.push_back(p.n[x].a); } else terms.push_back(x); }
        mpq_class c = 0; Id rest = 0; for (Id x : terms) if (p.isc(x)) c += p.val(x); else rest = add(rest, x);
        mpz_class k; mpz_fdiv_q(k.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t()); if (abs(k) < 100) { rest = add(rest, p.cst(c - k)); if (p.isc(rest)) return pow_q(a, p.val(rest) + k); return mul(pow_q(a, mpq_class(k)), exp_(mul(rest, log_(a)))); }
    }
    return exp_(mul(b, log_(a)));
}
Id sqrt_(Id a) {
    a = ck(a); Pool& p = P(); if (a == p.bad) return a;
    const Node n = p.n[a];
    if (n.op == POW && p.q[n.k] == 2) return abs_(n.a);
    if (n.op == MUL && p.isc(n.a) && p.val(n.a) > 0 && p.n[n.b].op == POW && p.q[p.n[n.b].k] == 2) return mul(pow_q(n.a, mpq_class(1, 2)), abs_(p.n[n.b].a));
    return pow_q(a, mpq_class(1, 2));
}
Id exp_(Id a) {
    a = ck(a); Pool& p = P(); if (a == p.bad) return a;
    if (a == 0) return 1;
    const Node n = p.n[a];
    if (n.op == LOG) return n.a;
    if (n.op == MUL && p.isc(n.a) && p.n[n.b].op == LOG) return pow_q(p.n[n.b].a, p.val(n.a));
    if (n.op == ADD) {   // split off logarithms
        std::vector<Id> st{a}, terms; while (!st.empty() && terms.size() < 24) { Id x = st.back(); st.pop_back(); if (p.n[x].op == ADD) { st.push_back(p.n[x].a); st.push_back(p.n[x].b); } else terms.push_back(x); }
        for (Id x : st) terms.push_back(x);
        Id outer = 1, rest = 0; bool any = false;
        for (Id x : terms) { mpq_class c; Id r; coef(x, c, r); if (p.n[r].op == LOG && !p.isc(x)) { outer = mul(outer, pow_q(p.n[r].a, c)); any = true; } else rest = add(rest, x); }
        if (any) return mul(outer, exp_(rest));
    }
    return p.mk(EXP, a, 0, 0);
}
static Id log_z(const mpz_class& z0) {   // log of a positive integer: by small prime factors
    Pool& p = P(); mpz_class z = z0; Id s = 0;
    for (unsigned long d = 2; d < 20000 && z > 1; d += (d == 2 ? 1 : 2)) { long e = 0; while (mpz_divisible_ui_p(z.get_mpz_t(), d)) { z /= d; ++e; } if (e) s = add(s, mul(p.cst(mpq_class(e)), p.mk(LOG, p.cst(mpq_class((long)d)), 0, 0))); }
    if (z > 1) s = add(s, p.mk(LOG, p.cst(mpq_class(z)), 0, 0));
    return s;
}
Id log_(Id a) {
    a = ck(a); Pool& p = P(); if (a == p.bad) return a;
    const Node n = p.n[a];
    if (n.op == CONST) { if (p.val(a) <= 0) return p.bad; return add(log_z(p.val(a).get_num()), neg(log_z(p.val(a).get_den()))); }
    if (n.op == EXP) return n.a;
    if (n.op == POW && (positive(n.a))) return mul(p.cst(p.q[n.k]), log_(n.a));
    if (n.op == MUL && positive(n.a) && positive(n.b)) return add(log_(n.a), log_(n.b));
    if (n.op == MUL && p.isc(n.a) && p.val(n.a) < 0 && p.n[n.b].op == ADD) { Node m = p.n[n.b]; return log_(add(mul(n.a, m.a), mul(n.a, m.b))); }
    if (n.op == ADD) {   // pull out a common rational content so that log(c*u) = log c + log u
        mpq_class c; Id r; coef(n.a, c, r); if (c < 0) c = -c;
        if (p.isc(n.a)) { mpq_class c2; coef(n.b, c2, r); c = c2 < 0 ? mpq_class(-c2) : c2; }
        if (c != 1 && c != 0) { mpq_class i = 1 / c; Id u = add(mul(p.cst(i), n.a), mul(p.cst(i), n.b)); return add(log_(p.cst(c)), p.mk(LOG, u, 0, 0)); }
    }
    return p.mk(LOG, a, 0, 0);
}
// acos(4v^3 - 3v) = 3 acos v for an input v in [1/2,1]; atan(sqrt(1-y^2)/y) = acos y for y > 0, acos y - pi for y < 0
static std::set<int> varsof(Id); static int pit_zero(Id, int);
static Id triple_angle(int k, Id a) { Pool& p = P(); for (int v : varsof(a)) { nat lo = p.vars[v].lo, hi = p.vars[v].hi; if (!(lo >= 0.5 && hi <= 1)) continue; Id x = p.mk(VAR, 0, 0, v); if (a == x) return 0; Id y = sub(mul(c_int(4), mul(x, mul(x, x))), mul(c_int(3), x)), c = mul(c_int(3), uf_(2, x));
        if (k == 2) { if (a == y || pit_zero(sub(a, y), 3) == 1) return c; continue; }
        int s = lo >= 0.8660255 ? 1 : hi <= 0.866025 ? -1 : 0; if (s && pit_zero(sub(a, div(sqrt_(sub(1, mul(y, y))), y)), 3) == 1) return s > 0 ? c : sub(c, p.cst(reify(3.141592653589793))); }
    return 0; }
Id uf_(int k, Id a) { a = ck(a); Pool& p = P(); if (a == p.bad) return a; 
    if (k == 1 && a == 0) return 1; if ((k == 0 || k == 3 || k == 4 || k == 8) && a == 0) return 0;
    if (k == 2 || k == 4) { Id r = triple_angle(k, a); if (r) return r; }
    if (k == 0 || k == 1) { Node n = p.n[a];   // of an arc cosine, and of one turned by a multiple of pi/3
        if (n.op == UF && n.k == 2) return k == 1 ? n.a : sqrt_(sub(1, mul(n.a, n.a)));
        if (n.op == MUL && p.isc(n.a) && p.n[n.b].op == ADD) { Node m = p.n[n.b]; if (p.isc(m.a) || p.isc(m.b)) return uf_(k, add(mul(n.a, m.a), mul(n.a, m.b))); }
        if (n.op == ADD && (p.isc(n.a) || p.isc(n.b))) { Id c = p.isc(n.a) ? n.a : n.b, u = c == n.a ? n.b : n.a; Node m = p.n[u]; mpq_class r = p.val(c) / reify(3.141592653589793) * 3;
            if (m.op == UF && m.k == 2 && r.get_den() == 1 && abs(r) < 100) { long i = ((r.get_num().get_si() % 6) + 6) % 6; static const int c2[6] = {2, 1, -1, -2, -1, 1}, s2[6] = {0, 1, 1, 0, -1, -1}; Id cc = p.cst(mpq_class(c2[i], 2)), ss = mul(p.cst(mpq_class(s2[i], 2)), sqrt_(c_int(3))), cu = m.a, su = sqrt_(sub(1, mul(m.a, m.a)));
                return k == 1 ? sub(mul(cu, cc), mul(su, ss)) : add(mul(su, cc), mul(cu, ss)); } } }
    if (k >= 5 && k <= 7 && p.isc(a)) { nat v = p.val(a).get_d(); return c_nat(k == 5 ? std::floor(v) : k == 6 ? std::ceil(v) : std::round(v)); }
    return p.mk(UF, a, 0, k); }
bool is_nan(Id a) { return ck(a) == P().bad; }
Id abs_(Id a) {
    a = ck(a); Pool& p = P(); if (a == p.bad) return a;
    if (p.isc(a)) return p.val(a) < 0 ? neg(a) : a;
    Iv v = ival(a); if (v.lo >= 0) return a; if (v.hi <= 0) return neg(a);
    return less(a, 0) ? neg(a) : a;
}

// ---------------------------------------------------------------- intervals
static Iv ivn(nat lo, nat hi) { if (std::isnan(lo) || std::isnan(hi)) return {-INFINITY, INFINITY};
    auto dn = [](nat x) { return std::isinf(x) ? x : (x == 0 ? x : std::nextafter(x - std::fabs(x) * 4e-16, -INFINITY)); };
    auto up = [](nat x) { return std::isinf(x) ? x : (x == 0 ? x : std::nextafter(x + std::fabs(x) * 4e-16, INFINITY)); };
    return {dn(lo), up(hi)}; }
static Iv ivmul(Iv a, Iv b) { auto m = [](nat x, nat y) { return (x == 0 || y == 0) ? 0.0 : x * y; };
    nat c[4] = {m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi)}; return ivn(*std::min_element(c, c + 4), *std::max_element(c, c + 4)); }
static Iv iv1(Id i) {
    Pool& p = P(); const Node& n = p.n[i]; const Iv all{-INFINITY, INFINITY};
    switch (n.op) {
    case CONST: { nat v = p.val(i).get_d(); if (p.val(i) == 0) return {0, 0}; Iv r = ivn(v, v); if (p.val(i) > 0 && r.lo < 0) r.lo = 0; return r; }
    case VAR: return {p.vars[n.k].lo, p.vars[n.k].hi};
    case ADD: return ivn(p.iv[n.a].lo + p.iv[n.b].lo, p.iv[n.a].hi + p.iv[n.b].hi);
    case MUL: return ivmul(p.iv[n.a], p.iv[n.b]);
    case POW: { Iv a = p.iv[n.a]; const mpq_class& e = p.q[n.k]; nat ed = e.get_d();
        bool integer = e.get_den() == 1;
        if (a.lo > 0 || (a.lo >= 0 && ed > 0)) { nat x = std::pow(a.lo, ed), y = std::pow(a.hi, ed); Iv r = ivn(std::min(x, y), std::max(x, y)); if (r.lo < 0) r.lo = 0; if (a.lo > 0 && r.lo <= 0) r.lo = a.hi < INFINITY && ed != 0 ? std::numeric_limits<nat>::min() : 0; 
            return r; }
        if (integer && a.hi < 0) { bool even = mpz_even_p(e.get_num_mpz_t()); nat x = std::pow(-a.lo, ed), y = std::pow(-a.hi, ed); Iv r = ivn(std::min(x, y), std::max(x, y)); if (r.lo < 0) r.lo = 0; return even ? r : Iv{-r.hi, -r.lo}; }
        if (integer && mpz_even_p(e.get_num_mpz_t())) { if (ed > 0) { nat m = std::max(std::fabs(a.lo), std::fabs(a.hi)); return ivn(0, std::pow(m, ed)); } return {0, INFINITY}; }
        if (integer && ed > 0) return ivn(std::pow(a.lo, ed), std::pow(a.hi, ed));
        if (!integer) return {0, INFINITY};
        return all; }
    case EXP: { Iv r = ivn(std::exp(p.iv[n.a].lo), std::exp(p.iv[n.a].hi)); if (r.lo < 0) r.lo = 0; if (r.lo == 0 && p.iv[n.a].lo > -INFINITY) r.lo = std::numeric_limits<nat>::min(); return r; }
    case LOG: { Iv a = p.iv[n.a]; return ivn(a.lo > 0 ? std::log(a.lo) : -INFINITY, a.hi > 0 ? std::log(a.hi) : INFINITY); }
    case UF: if (n.k == 0 || n.k == 1 || n.k == 3) return {-1, 1}; if (n.k == 2) { Iv a = p.iv[n.a]; return ivn(a.hi < 1 ? std::acos(std::max(a.hi, -1.0)) - 1e-9 : 0, a.lo > -1 ? std::acos(std::min(a.lo, 1.0)) + 1e-9 : 3.1416); } return all;
    default: return all;
    }
}
static Iv ival(Id i) {
    Pool& p = P();
    if (p.iv.size() < p.n.size()) { p.iv.resize(p.n.size()); p.ivok.resize(p.n.size(), 0); }
    if (p.ivok[i]) return p.iv[i];
    std::vector<Id> st{i};
    while (!st.empty()) {
        Id x = st.back(); if (p.ivok[x]) { st.pop_back(); continue; }
        const Node& n = p.n[x]; bool rdy = true;
        if (n.op >= ADD && n.op <= UF) { if (!p.ivok[n.a]) { st.push_back(n.a); rdy = false; } if ((n.op == ADD || n.op == MUL) && !p.ivok[n.b]) { st.push_back(n.b); rdy = false; } }
        if (!rdy) continue;
        p.iv[x] = iv1(x); p.ivok[x] = 1; st.pop_back();
    }
    return p.iv[i];
}

// ---------------------------------------------------------------- reachable sets, substitution, derivatives
static void children(Id x, Id* c, int& nc) { const Node& n = P().n[x]; nc = 0; if (n.op == ADD || n.op == MUL) { c[nc++] = n.a; c[nc++] = n.b; } else if (n.op == POW || n.op == EXP || n.op == LOG || n.op == UF) c[nc++] = n.a; }
static std::vector<Id> reach(const std::vector<Id>& roots) {
    std::vector<char> seen(P().n.size(), 0); std::vector<Id> st(roots), out;
    while (!st.empty()) { Id x = st.back(); st.pop_back(); if (seen[x]) continue; seen[x] = 1; out.push_back(x); Id c[2]; int nc; children(x, c, nc); for (int i = 0; i < nc; ++i) if (!seen[c[i]]) st.push_back(c[i]); }
    std::sort(out.begin(), out.end()); return out;
}
static std::set<int> varsof(Id r) { std::set<int> s; for (Id x : reach({r})) if (P().n[x].op == VAR) s.insert(P().n[x].k); return s; }
static Id subst(Id r, const std::map<int, Id>& b) {
    Pool& p = P(); std::unordered_map<Id, Id> m;
    for (Id x : reach({r})) { const Node n = p.n[x]; Id y = x;
        switch (n.op) { case VAR: { auto it = b.find(n.k); if (it != b.end()) y = it->second; break; }
            case ADD: y = add(m[n.a], m[n.b]); break; case MUL: y = mul(m[n.a], m[n.b]); break;
            case POW: y = m[n.a] == n.a ? x : pow_q(m[n.a], p.q[n.k]); break; case EXP: y = m[n.a] == n.a ? x : exp_(m[n.a]); break; case LOG: y = m[n.a] == n.a ? x : log_(m[n.a]); break; case UF: y = m[n.a] == n.a ? x : uf_(n.k, m[n.a]); break; default: break; }
        m[x] = y; }
    return m[r];
}
static Id diff(Id r, int v) {
    Pool& p = P(); if (p.dmemo.size() <= (size_t)v) p.dmemo.resize(v + 1);
    auto& memo = p.dmemo[v];
    std::vector<Id> st{r};
    while (!st.empty()) {
        Id x = st.back(); if (memo.count(x)) { st.pop_back(); continue; }
        const Node n = p.n[x]; Id c[2]; int nc; children(x, c, nc); bool rdy = true;
        for (int i = 0; i < nc; ++i) if (!memo.count(c[i])) { st.push_back(c[i]); rdy = false; }
        if (!rdy) continue; st.pop_back();
        Id d = 0;
        switch (n.op) {
        case VAR: if (n.k == v) d = 1; else { auto it = p.vars[n.k].der.find(v); if (it != p.vars[n.k].der.end()) d = it->second; } break;
        case ADD: d = add(memo[n.a], memo[n.b]); break;
        case MUL: { Id da = memo[n.a], db = memo[n.b]; d = add(mul(da, n.b), mul(n.a, db)); break; }
        case POW: { Id da = memo[n.a]; if (da) { mpq_class e = p.q[n.k]; d = mul(mul(p.cst(e), pow_q(n.a, e - 1)), da); } break; }
        case EXP: { Id da = memo[n.a]; if (da) d = mul(x, da); break; }
        case LOG: { Id da = memo[n.a]; if (da) d = div(da, n.a); break; }
        case UF: { Id da = memo[n.a]; if (da) {
            if (n.k == 0) d = mul(uf_(1, n.a), da); else if (n.k == 1) d = neg(mul(uf_(0, n.a), da));
            else if (n.k == 2) d = neg(div(da, sqrt_(sub(1, mul(n.a, n.a))))); else if (n.k == 3) d = mul(sub(1, mul(x, x)), da);
            else if (n.k == 4) d = div(da, add(1, mul(n.a, n.a))); else if (n.k == 8) d = mul(add(1, mul(x, x)), da); else d = 0; } break; }
        default: d = n.op == BAD ? p.bad : 0; }
        memo[x] = d;
    }
    return memo[r];
}

std::string show(Id i, int budget) {
    Pool& p = P(); i = ck(i);
    if (budget <= 0) return "..";
    const Node& n = p.n[i];
    switch (n.op) {
    case CONST: { const mpq_class& v = p.val(i); if (v.get_den() == 1 && v.get_num().get_str().size() < 12) return v.get_num().get_str(); char b[40]; snprintf(b, 40, "%.10g", v.get_d()); return b; }
    case VAR: { auto& s = p.vars[n.k].name; auto c = s.find('/'); return c == std::string::npos ? s : s.substr(c + 1); }
    case ADD: return "(" + show(n.a, budget / 2) + "+" + show(n.b, budget / 2) + ")";
    case MUL: return show(n.a, budget / 2) + "*" + show(n.b, budget / 2);
    case POW: return show(n.a, budget - 4) + "^" + p.q[n.k].get_str();
    case EXP: return "exp(" + show(n.a, budget - 5) + ")"; case LOG: return "log(" + show(n.a, budget - 5) + ")"; case UF: return "f" + std::to_string(n.k) + "(" + show(n.a, budget - 5) + ")";
    default: return "undefined"; }
}
std::string token(Id i) { i = ck(i); Pool& p = P(); if (p.isc(i)) { char b[40]; snprintf(b, 40, "%g", p.val(i).get_d()); return b; } return "{#" + std::to_string(i) + "}"; }
bool is_token(const std::string& s, Id& i) { if (s.size() > 3 && s[0] == '{' && s[1] == '#') { i = (Id)std::strtoul(s.c_str() + 2, nullptr, 10); return true; } return false; }
// a printed number carries the notation it was printed in: {#id:p<digits><f fixed, e scientific, g general>}
std::ostream& operator<<(std::ostream& o, Real r) { Id i = ck(r.id); if (P().isc(i)) return o << P().val(i).get_d(); std::string t = token(i); t.pop_back(); auto f = o.flags() & std::ios::floatfield; return o << t + ":p" + std::to_string(o.precision()) + (f == std::ios::fixed ? "f}" : f == std::ios::scientific ? "e}" : "g}"); }
// a number in a text (an equation, a record) that stands for a symbol: reading it, by whatever means, gives the symbol back
Id from_native_token(nat v) { return c_nat(v); }
std::string text(Id i) { i = ck(i); nat v = 1000003.25 + 7. * i; char b[40]; snprintf(b, 40, "%.2f", v); v = strtod(b, nullptr); natmap()[v] = i; natmap()[-v] = neg(i); return b; }

// ---------------------------------------------------------------- numeric evaluation
static nat m_pow(nat a, nat e) { return std::pow(a, e); } static quad m_pow(quad a, quad e) { return powq(a, e); }
static nat m_exp(nat a) { return std::exp(a); } static quad m_exp(quad a) { return expq(a); }
static nat m_log(nat a) { return std::log(a); } static quad m_log(quad a) { return logq(a); }
static nat m_uf(int k, nat a) { switch (k) { case 0: return std::sin(a); case 1: return std::cos(a); case 2: return std::acos(a); case 3: return std::tanh(a); case 4: return std::atan(a); case 5: return std::floor(a); case 6: return std::ceil(a); case 7: return std::round(a); case 8: return std::tan(a); } return NAN; }
static quad m_uf(int k, quad a) { switch (k) { case 0: return sinq(a); case 1: return cosq(a); case 2: return acosq(a); case 3: return tanhq(a); case 4: return atanq(a); case 5: return floorq(a); case 6: return ceilq(a); case 7: return roundq(a); case 8: return tanq(a); } return 0; }
static quad to_quad(const mpq_class& q) { mpf_class f(q, 160); long e; nat d = mpf_get_d_2exp(&e, f.get_mpf_t()); mpf_class rest(f, 160); mpf_class m(0, 160); 
    if (d == 0) return 0; quad r = ldexpq((quad)d, e); mpf_class h(0, 160); mpf_set_d(h.get_mpf_t(), d); if (e >= 0) mpf_mul_2exp(h.get_mpf_t(), h.get_mpf_t(), e); else mpf_div_2exp(h.get_mpf_t(), h.get_mpf_t(), -e);
    rest = f - h; if (rest != 0) { nat d2 = mpf_get_d_2exp(&e, rest.get_mpf_t()); r += ldexpq((quad)d2, e); mpf_set_d(h.get_mpf_t(), d2); if (e >= 0) mpf_mul_2exp(h.get_mpf_t(), h.get_mpf_t(), e); else mpf_div_2exp(h.get_mpf_t(), h.get_mpf_t(), -e); rest -= h; if (rest != 0) { nat d3 = mpf_get_d_2exp(&e, rest.get_mpf_t()); r += ldexpq((quad)d3, e); } }
    return r; }
template<class T> static T qval(int k) { static std::vector<T> c; static std::vector<char> ok; Pool& p = P(); if (c.size() < p.q.size()) { c.resize(p.q.size()); ok.resize(p.q.size(), 0); } if (!ok[k]) { if constexpr (std::is_same<T, nat>::value) c[k] = p.q[k].get_d(); else c[k] = to_quad(p.q[k]); ok[k] = 1; } return c[k]; }

struct Path;
static Path* cur = nullptr;
static u64 g_seed = 1;
static void narrowed(int v, nat& lo, nat& hi);
static nat sample(int v, u64 s) {
    Pool& p = P(); VarInfo& w = p.vars[v]; u64 h = mix(s * 1000003ULL + std::hash<std::string>()(w.name)); 
    nat u = (h >> 11) * (1.0 / 9007199254740992.0); u = 0.002 + 0.996 * u;
    nat lo = w.lo, hi = w.hi, r; narrowed(v, lo, hi);
    if (lo > 0 && hi / lo > 1e3) r = std::exp(std::log(lo) + u * (std::log(hi) - std::log(lo)));
    else if (hi - lo > 1e4 && lo < 0 && hi > 0 && (mix(h) & 1)) { // mixed magnitudes
        nat m = std::pow(std::min(-lo, hi), u); r = (mix(h + 1) & 1) ? m : -m; }
    else r = lo + u * (hi - lo);
    char b[40]; snprintf(b, 40, "%.7g", r); nat t = strtod(b, nullptr); if (t > lo && t < hi) r = t; return r;
}
template<class T> struct Ev { u64 seed; std::vector<T> v; std::vector<char> ok; std::map<int, nat> fix; T get(Id i); };

struct Fact { Id d; int mask; };               // sign(d) in mask: 1 neg, 2 zero, 4 pos
struct Decision { int choice; std::vector<int> options; };   // chosen mask and remaining
struct Path {
    std::vector<Decision>* trail; size_t pos = 0;
    std::unordered_map<Id, int> signs; std::vector<Fact> facts;
    std::map<int, Id> bind; std::vector<std::unique_ptr<Ev<nat>>> wit; u64 nextseed = 1; bool witnessed = true;
    long generic = 0, branches = 0, maxbranches = -1; std::set<std::string> covers; std::vector<int> choices;
    std::map<int, std::pair<nat, nat>> box;      // bounds of single variables that follow from the path condition
};
static void narrowed(int v, nat& lo, nat& hi) { if (!cur) return; auto it = cur->box.find(v); if (it != cur->box.end() && it->second.first < it->second.second) { lo = it->second.first; hi = it->second.second; } }
static bool g_fork_eq = true;
static long g_generic = 0, g_unwit = 0;
template<class T> T Ev<T>::get(Id r) {
    Pool& p = P(); if (v.size() < p.n.size()) { v.resize(p.n.size() + 256); ok.resize(p.n.size() + 256, 0); }
    if (ok[r]) return v[r];
    std::vector<Id> st{r};
    while (!st.empty()) {
        Id x = st.back(); if (ok[x]) { st.pop_back(); continue; }
        const Node n = p.n[x]; Id c[2]; int nc; children(x, c, nc);
        if (n.op == VAR && cur) { auto it = cur->bind.find(n.k); if (it != cur->bind.end()) { c[0] = it->second; nc = 1; } }
        bool rdy = true; for (int i = 0; i < nc; ++i) if (!ok[c[i]]) { st.push_back(c[i]); rdy = false; }
        if (!rdy) continue; st.pop_back(); T y;
        switch (n.op) {
        case CONST: y = qval<T>(n.k); break;
        case VAR: { auto fx = fix.find(n.k); y = nc ? v[c[0]] : fx != fix.end() ? (T)fx->second : (T)sample(n.k, seed); break; }
        case ADD: y = v[n.a] + v[n.b]; break; case MUL: y = v[n.a] * v[n.b]; break;
        case POW: { T b = v[n.a], e = qval<T>(n.k); if (p.q[n.k] == -1) y = 1 / b; else if (p.q[n.k] == 2) y = b * b; else y = m_pow(b, e); break; }
        case EXP: y = m_exp(v[n.a]); break; case LOG: y = m_log(v[n.a]); break; case UF: y = m_uf(n.k, v[n.a]); break;
        default: y = (T)NAN; }
        v[x] = y; ok[x] = 1;
    }
    return v[r];
}
static int sgn(nat x) { return x < 0 ? 1 : x > 0 ? 4 : x == 0 ? 2 : 0; }
static bool holds_all(Ev<nat>& e) { for (auto& f : cur->facts) if (!(sgn(e.get(f.d)) & f.mask)) return false; return true; }
static void more_witnesses(size_t want, u64 budget) { u64 end = cur->nextseed + budget; while (cur->wit.size() < want && cur->nextseed < end) { auto e = std::make_unique<Ev<nat>>(); e->seed = mix(g_seed) + cur->nextseed++; if (holds_all(*e)) cur->wit.push_back(std::move(e)); } }

// ---------------------------------------------------------------- finite-field identity testing
static const u64 chains[][3] = {
#include "chains.inc"
};
static u64 mulm(u64 a, u64 b, u64 m) { return (u128)a * b % m; }
static u64 powm(u64 a, u64 e, u64 m) { u64 r = 1; a %= m; while (e) { if (e & 1) r = mulm(r, a, m); a = mulm(a, a, m); e >>= 1; } return r; }
static u64 invm(u64 a, u64 m) { return powm(a, m - 2, m); }
static bool qr(u64 a, u64 p) { return a && powm(a, (p - 1) / 2, p) == 1; }
struct FieldFail {};
struct Field {
    const u64* pr; u64 vseed, cseed; u64 gen[3];
    std::vector<u64> val[3]; std::vector<char> ok[3];
    const std::map<int, Id>* bind = nullptr;
    Field(int chain, u64 vs, u64 cs) : pr(chains[chain]), vseed(vs), cseed(cs) { for (int l = 0; l < 3; ++l) { u64 g = mix(cs + 77 + l) % pr[l]; gen[l] = mulm(g, g, pr[l]); val[l].resize(P().n.size(), 0); ok[l].resize(P().n.size(), 0); } }
    u64 rat(const mpq_class& q, int l) { u64 m = pr[l]; mpz_class M((unsigned long)m); mpz_class a = q.get_num() % M; if (a < 0) a += M; mpz_class d = q.get_den() % M; u64 dn = d.get_ui(); if (!dn) throw FieldFail(); return mulm(a.get_ui(), dn == 1 ? 1 : invm(dn, m), m); }
    // evaluates all of `roots` at level l
    void eval(const std::vector<Id>& roots, int l) {
        Pool& p = P(); u64 m = pr[l]; auto order = reach(roots);
        std::vector<Id> inner; for (Id x : order) if (p.n[x].op == EXP && !ok[l][x]) inner.push_back(p.n[x].a);
        if (!inner.empty() && l < 2) eval(inner, l + 1);
        for (Id x : order) { if (ok[l][x]) continue; const Node& n = p.n[x]; u64 y;
            switch (n.op) {
            case CONST: y = rat(p.q[n.k], l); break;
            case VAR: { u64 h = mix(mix(vseed + 1315423911ULL * l) + std::hash<std::string>()(p.vars[n.k].name)) % m; if (p.vars[n.k].lo >= 0) h = mulm(h, h, m); else if (p.vars[n.k].hi <= 0) h = m - mulm(h, h, m); y = h; break; }
            case ADD: { y = val[l][n.a] + val[l][n.b]; if (y >= m) y -= m; break; }
            case MUL: y = mulm(val[l][n.a], val[l][n.b], m); break;
            case POW: { u64 b = val[l][n.a]; const mpq_class& e = p.q[n.k];
                if (e.get_den() == 1) { long k = e.get_num().get_si(); if (k < 0) { if (!b) throw FieldFail(); b = invm(b, m); k = -k; } y = powm(b, k, m); }
                else { if (b == 0) { y = 0; if (e < 0) throw FieldFail(); break; }
                    bool isq = qr(b, m); if (!isq && mpz_even_p(e.get_den_mpz_t())) throw FieldFail();
                    if (l == 2) { y = mix(mix(cseed + b) + n.k + 99) % m; break; }
                    u64 bb = isq ? b : m - b; u64 ex = 0; { u64 o = pr[l + 1]; mpz_class O((unsigned long)o); mpz_class a = e.get_num() % O; if (a < 0) a += O; mpz_class d = e.get_den() % O; ex = mulm(a.get_ui(), invm(d.get_ui(), o), o); }
                    y = powm(bb, ex, m); if (!isq && mpz_odd_p(e.get_num_mpz_t())) y = m - y; }
                break; }
            case EXP: y = l < 2 ? powm(gen[l], val[l + 1][n.a], m) : mix(mix(cseed + 5) + val[l][n.a]) % m; break;
            case LOG: y = mix(mix(cseed + 0x1234 + l) + val[l][n.a]) % m; break;
            case UF: y = mix(mix(cseed + 0x777 + l + 31 * n.k) + val[l][n.a]) % m; break;
            default: throw FieldFail(); }
            val[l][x] = y; ok[l][x] = 1; }
    }
};
static bool hasbad(Id r) { for (Id x : reach({r})) if (P().n[x].op == BAD) return true; return false; }
static long g_pit_rounds = 0, g_field_muls = 0;
// 1: identically zero (all rounds), 0: not zero, -1: could not evaluate
static int pit_zero(Id d, int rounds) {
    Pool& p = P(); if (d == 0) return 1; if (p.isc(d)) return p.val(d) == 0; if (hasbad(d)) return -1;
    int done = 0; for (int tries = 0; tries < 6000 && done < rounds; ++tries) {
        int ch = mix(g_seed * 31 + tries) % (sizeof chains / sizeof chains[0]);
        try { Field f(ch, mix(g_seed + 1000 + tries), mix(g_seed + 7 + tries)); f.eval({d}, 0); ++g_pit_rounds; ++done; if (f.val[0][d] != 0) return 0; } catch (FieldFail&) {}
    }
    return done == rounds ? 1 : -1;
}
// is a/b a constant function?  evaluated at several points of one field with constant atoms fixed
static int pit_const_ratio(Id a, Id b) {
    int done = 0;
    for (int c = 0; c < 200 && done < 3; ++c) { int ch = mix(g_seed * 17 + c) % (sizeof chains / sizeof chains[0]); u64 cs = mix(g_seed + 4242 + c); u64 first = 0; int got = 0;
        for (int t = 0; t < 400 && got < 4; ++t) { try { Field f(ch, mix(g_seed + 99 + c * 1000 + t), cs); f.eval({a, b}, 0); u64 y = f.val[0][b]; if (!y) { if (f.val[0][a]) return 0; continue; } u64 r = mulm(f.val[0][a], invm(y, f.pr[0]), f.pr[0]); ++g_pit_rounds; if (!got) first = r; else if (r != first) return 0; ++got; } catch (FieldFail&) {} }
        if (got == 4) ++done; }
    return done == 3 ? 1 : -1;
}

// ---------------------------------------------------------------- branching
static Id canon(Id d, bool& flip) { mpq_class c; Id r; coef(d, c, r); if (r == 1) { flip = false; return d; } flip = c < 0;
    Id m = neg(d); Pool& p = P();
    // strip a rational factor, orient sums by their smaller id
    if (c != 1 && c != -1) { flip = c < 0; d = r; m = neg(d); } else { d = r; m = neg(r); flip = c < 0; }
    if (p.n[d].op == ADD) { mpq_class c1, c2; Id r1, r2; Id x = p.n[d].a, y = p.n[d].b; coef(x, c1, r1); coef(y, c2, r2); if (p.isc(x) || (!p.isc(y) && r2 < r1)) { std::swap(c1, c2); }
        if (c1 != 1) { mpq_class f = 1 / c1; if (c1 < 0) flip = !flip; return add(mul(p.cst(f), x), mul(p.cst(f), y)); } }
    return d; }
static int flipm(int m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }
static quad const_eval(Id d) { Ev<quad> e; e.seed = 1; Path* s = cur; cur = nullptr; quad r = e.get(d); cur = s; return r; }
static int static_sign(Id d) {   // mask known without path information
    Pool& p = P(); if (p.isc(d)) return p.val(d) < 0 ? 1 : p.val(d) > 0 ? 4 : 2;
    Iv v = ival(d); int m = 7; if (v.lo > 0) m = 4; else if (v.hi < 0) m = 1; else { if (v.lo >= 0) m &= 6; if (v.hi <= 0) m &= 3; }
    if (p.n[d].op == VAR) { if (v.lo >= 0) m &= 4; if (v.hi <= 0) m &= 1; }
    if (m != 1 && m != 4 && varsof(d).empty()) { quad q = const_eval(d); if (fabsq(q) > 1e-20Q) return q < 0 ? 1 : 4; if (pit_zero(d, 3) == 1) return 2; }
    return m;
}
// linear in exactly one variable? then d==0 binds it
static bool solve(Id d, int& var, Id& expr) {
    auto vs = varsof(d); if (vs.size() != 1) return false; int v = *vs.begin(); Id dd = diff(d, v); if (!P().isc(dd) || dd == 0) return false;
    std::map<int, Id> z{{v, 0}}; Id d0 = subst(d, z); expr = neg(div(d0, dd)); var = v; return true;
}
static int decide(Id d, const std::vector<int>& parts);
static int sign_query(Id d0, std::vector<int> parts) {   // returns the part the sign belongs to
    bool flip; Id d = canon(d0, flip); if (flip) for (auto& x : parts) x = flipm(x);
    int r = decide(d, parts); return flip ? flipm(r) : r;
}
static int pick(const std::vector<int>& parts, int m) { for (int x : parts) if ((m & x) == m) return x; return 0; }
static int signmul(int a, int b) { int r = 0; for (int x : {1, 2, 4}) for (int y : {1, 2, 4}) if ((a & x) && (b & y)) r |= (x == 2 || y == 2) ? 2 : (x == y ? 4 : 1); return r; }
// what the path condition and the structure say about the sign of an expression
static int path_sign(Id i, std::unordered_map<Id, int>& memo, int depth = 0) {
    auto it = memo.find(i); if (it != memo.end()) return it->second;
    Pool& p = P(); int m = static_sign(i); const Node n = p.n[i];
    if (cur && (m & (m - 1))) { bool fl; Id c = canon(i, fl); auto k = cur->signs.find(c); if (k != cur->signs.end()) m &= fl ? flipm(k->second) : k->second; 
        if (n.op == VAR) { auto b = cur->bind.find(n.k); if (b != cur->bind.end()) m &= path_sign(b->second, memo, depth + 1); } }
    if ((m & (m - 1)) && depth < 60) switch (n.op) {
        case MUL: m &= signmul(path_sign(n.a, memo, depth + 1), path_sign(n.b, memo, depth + 1)); break;
        case ADD: { int a = path_sign(n.a, memo, depth + 1), b = path_sign(n.b, memo, depth + 1); int r = 0; for (int x : {1, 2, 4}) for (int y : {1, 2, 4}) if ((a & x) && (b & y)) r |= x == 2 ? y : y == 2 ? x : x == y ? x : 7; m &= r; break; }
        case POW: { int a = path_sign(n.a, memo, depth + 1); const mpq_class& e = p.q[n.k]; if (a == 4) m &= 4; else if (a == 6 || (e.get_den() == 1 && mpz_even_p(e.get_num_mpz_t()))) { m &= 6; if (!(a & 2)) m &= 4; } else if (e.get_den() == 1) { if (a == 1) m &= 1; if (a == 3) m &= 3; } else m &= 6; break; }
        case EXP: m &= 4; break;
        default: break; }
    if (!m) m = static_sign(i);
    return memo[i] = m;
}
static int path_sign(Id i) { std::unordered_map<Id, int> m; return path_sign(i, m); }
// the same value on this path: logarithms and roots split into factors the path condition shows positive
static Id rebuild(Id r) {
    Pool& p = P(); std::unordered_map<Id, Id> m; g_use_path = true;
    for (Id x : reach({r})) { const Node n = p.n[x]; Id y = x;
        switch (n.op) { case ADD: y = add(m[n.a], m[n.b]); break; case MUL: y = mul(m[n.a], m[n.b]); break; case POW: y = pow_q(m[n.a], p.q[n.k]); break; case EXP: y = exp_(m[n.a]); break; case LOG: y = log_(m[n.a]); break; case UF: y = m[n.a] == n.a ? x : uf_(n.k, m[n.a]); break; default: break; }
        m[x] = y; }
    g_use_path = false; return m[r];
}
static void learn(Id d0, int m, int depth = 0) {   // record a sign fact and what follows for its factors
    bool fl; Id d = canon(d0, fl); if (fl) m = flipm(m); auto it = cur->signs.find(d); if (it != cur->signs.end()) { int k = it->second & m; if (k == it->second) return; m = k; } cur->signs[d] = m; if (depth > 8) return;
    Pool& p = P(); const Node n = p.n[d];
    if (n.op == MUL) { int a = path_sign(n.a), b = path_sign(n.b); if (a == 1 || a == 4) learn(n.b, a == 1 ? flipm(m) : m, depth + 1); else if (b == 1 || b == 4) learn(n.a, b == 1 ? flipm(m) : m, depth + 1); }
    if (n.op == POW && p.q[n.k].get_den() == 1 && mpz_odd_p(p.q[n.k].get_num_mpz_t())) learn(n.a, m, depth + 1);
}
// ---------------------------------------------------------------- SMT back end (order reasoning over the path condition)
static long g_z3_calls = 0;
struct Smt {
    z3::context c; z3::solver s; std::unordered_map<Id, z3::expr> m; std::map<int, z3::expr> vs; int fresh = 0;
    Smt(unsigned ms) : s(c) { z3::params p(c); p.set("timeout", ms); p.set("random_seed", 1u); s.set(p); }
    z3::expr num(const mpq_class& q) { return c.real_val(q.get_str().c_str()); }
    z3::expr bounded(const std::string& n, Id i) { z3::expr e = c.real_const(n.c_str()); Iv v = ival(i); if (std::isfinite(v.lo)) s.add(e >= num(mpq_class(v.lo))); if (std::isfinite(v.hi)) s.add(e <= num(mpq_class(v.hi))); return e; }
    z3::expr tr(Id i) { auto it = m.find(i); if (it != m.end()) return it->second; z3::expr e = tr1(i); m.emplace(i, e); return e; }
    z3::expr tr1(Id i) { Pool& p = P(); const Node n = p.n[i];
        switch (n.op) {
        case CONST: return num(p.val(i));
        case VAR: { z3::expr e = c.real_const(("v" + std::to_string(n.k)).c_str()); auto& w = p.vars[n.k]; s.add(e > num(mpq_class(w.lo))); s.add(e < num(mpq_class(w.hi))); if (cur) { auto b = cur->bind.find(n.k); if (b != cur->bind.end()) s.add(e == tr(b->second)); } return e; }
        case ADD: return tr(n.a) + tr(n.b); case MUL: return tr(n.a) * tr(n.b);
        case POW: { const mpq_class& q = p.q[n.k]; if (q.get_den() == 1 && q.get_num() >= 2 && q.get_num() <= 4) { z3::expr a = tr(n.a), r = a; for (long k = 1; k < q.get_num().get_si(); ++k) r = r * a; return r; }
            z3::expr e = bounded("p" + std::to_string(i), i); if (q == -1) s.add(e * tr(n.a) == 1); if (q == mpq_class(1, 2)) { s.add(e >= 0); s.add(e * e == tr(n.a)); } return e; }
        default: return bounded("x" + std::to_string(i), i); } }
    void fact(Id d, int mask) { z3::expr e = tr(d); z3::expr z = c.real_val(0); switch (mask) { case 1: s.add(e < z); break; case 2: s.add(e == z); break; case 3: s.add(e <= z); break; case 4: s.add(e > z); break; case 5: s.add(e != z); break; case 6: s.add(e >= z); break; } }
};
// is the path condition together with sign(d) in mask contradictory?
static bool contradicts(Id d, int mask, unsigned ms = 1500) {
    if (reach({d}).size() > 4000) return false; ++g_z3_calls;
    try { Smt z(ms); size_t tot = 0; z.fact(d, mask); if (cur) for (auto& kv : cur->signs) { size_t k = reach({kv.first}).size(); if (k > 300 || (tot += k) > 6000) continue; z.fact(kv.first, kv.second); } return z.s.check() == z3::unsat; } catch (z3::exception&) { return false; } }
// a point of the path found by moving single variables until every fact holds
static std::unique_ptr<Ev<nat>> walk(u64 seed, int steps) {
    std::map<int, nat> fix; u64 h = mix(seed * 7919 + 17); auto rnd = [&] { h = mix(h + 1); return (h >> 11) * (1.0 / 9007199254740992.0); };
    auto at = [&] { auto e = std::make_unique<Ev<nat>>(); e->seed = seed; e->fix = fix; return e; };
    auto bad = [&](Ev<nat>& e, std::vector<size_t>* l) { int n = 0; for (size_t i = 0; i < cur->facts.size(); ++i) if (!(sgn(e.get(cur->facts[i].d)) & cur->facts[i].mask)) { ++n; if (l) l->push_back(i); } return n; };
    auto e = at(); std::vector<size_t> l; int n = bad(*e, &l);
    for (int k = 0; k < steps && n; ++k) {
        auto& f = cur->facts[l[(size_t)(rnd() * l.size()) % l.size()]]; std::vector<int> vs; for (int v : varsof(f.d)) { auto b = cur->bind.find(v); if (b == cur->bind.end()) vs.push_back(v); else for (int x : varsof(b->second)) vs.push_back(x); } if (vs.empty()) return nullptr;
        int v = vs[(size_t)(rnd() * vs.size()) % vs.size()]; auto& w = P().vars[v]; nat lo = w.lo, hi = w.hi; narrowed(v, lo, hi); auto old = fix; nat x0 = e->get(P().mk(VAR, 0, 0, v)), x1 = lo > 0 && hi / lo > 1e3 && rnd() < 0.5 ? lo * std::pow(hi / lo, rnd()) : lo + rnd() * (hi - lo);
        fix[v] = x1; auto e1 = at();
        if (sgn(e1->get(f.d)) & f.mask) { nat a = x0, b = x1; int halve = (int)(rnd() * 40); for (int i = 0; i < halve; ++i) { nat c = (a + b) / 2; fix[v] = c; auto e2 = at(); if (sgn(e2->get(f.d)) & f.mask) b = c; else a = c; } fix[v] = b; e1 = at(); }
        std::vector<size_t> l1; int n1 = bad(*e1, &l1); if (n1 <= n || rnd() < 0.05) { n = n1; l = l1; e = std::move(e1); } else fix = old; }
    if (n) return nullptr; return e; }
static int decide(Id d, const std::vector<int>& parts) {
    Pool& p = P(); if (d == p.bad) throw BadCompare("comparison of an undefined value");
    int known = static_sign(d);
    if (int r = pick(parts, known)) return r;
    if (!cur) throw Undecidable("symbolic branch outside a path");
    Path& pa = *cur;
    if (!pa.bind.empty()) { Id e = subst(d, pa.bind); if (e != d) { bool fl; Id e2 = canon(e, fl); int m = static_sign(e2); if (fl) m = flipm(m); known &= m; if (int r = pick(parts, known)) return r; } }
    auto it = pa.signs.find(d); if (it != pa.signs.end()) { known &= it->second; if (int r = pick(parts, known)) return r; }
    known &= path_sign(d); if (int r = pick(parts, known)) return r;
    // generic position: equality on anything but a single solvable variable is left out
    bool iseq = false; for (int x : parts) if (x == 2) iseq = true;
    int var; Id expr; bool solvable = iseq && g_fork_eq && solve(d, var, expr) && !pa.bind.count(var);
    if (iseq && !solvable && (known & 2)) {
        // could it be identically zero?
        more_witnesses(4, 200); bool allz = !pa.wit.empty(); for (size_t i = 0; i < pa.wit.size() && i < 4; ++i) { nat y = pa.wit[i]->get(d); if (!(std::fabs(y) < 1e-6)) allz = false; }
        if (allz) { Id e = pa.bind.empty() ? d : subst(d, pa.bind); if (pit_zero(e, 3) == 1) { pa.signs[d] = 2; return 2; } }
        known &= 5; ++pa.generic; ++g_generic;
        if (int r = pick(parts, known)) { pa.signs[d] = known; return r; }
    }
    // could it be a constant that the structure does not show?
    { more_witnesses(4, 200); bool same = pa.wit.size() >= 3; nat y0 = 0; for (size_t i = 0; same && i < pa.wit.size() && i < 4; ++i) { nat y = pa.wit[i]->get(d); if (!std::isfinite(y)) same = false; else if (!i) y0 = y; else if (std::fabs(y - y0) > 1e-4 * std::fabs(y0)) same = false; }
      if (same && y0 != 0) { Id e = pa.bind.empty() ? d : subst(d, pa.bind); bool cst = true; for (int v : varsof(e)) if (pit_zero(diff(e, v), 3) != 1) { cst = false; break; } if (cst) { int m = y0 < 0 ? 1 : 4; pa.signs[d] = m; if (int r = pick(parts, known & m)) return r; } } }
    if (pa.maxbranches >= 0 && pa.branches++ >= pa.maxbranches) throw PathAbort{"cut"};
    // feasible parts
    size_t at = pa.pos++;
    int chosen;
    if (at < pa.trail->size()) chosen = (*pa.trail)[at].choice;
    else {
        more_witnesses(24, 400); std::vector<int> opts, cold;
        for (int x : parts) { if (!(known & x)) continue; if (!iseq && !g_fork_eq && (known & x) == 2 && (known & 5) && pit_zero(d, 2) != 1) { ++pa.generic; ++g_generic; continue; } bool w = false; for (auto& e : pa.wit) if (sgn(e->get(d)) & x & known) { w = true; break; }
            if (x == 2 && solvable) { nat ev = (nat)const_eval(expr); if (ev > p.vars[var].lo && ev < p.vars[var].hi) opts.push_back(x); }
            else (w ? opts : cold).push_back(x); }
        if (!cold.empty()) { // look harder for a witness of the other side
            for (int x : cold) { Fact f{d, x & known}; u64 end = pa.nextseed + 3000; bool w = false; while (pa.nextseed < end && !w) { auto e = std::make_unique<Ev<nat>>(); e->seed = mix(g_seed) + pa.nextseed++; if ((sgn(e->get(d)) & x & known) && holds_all(*e)) { pa.wit.push_back(std::move(e)); w = true; } }
                if (w) opts.push_back(x); else if (!contradicts(d, x & known)) opts.push_back(x); } }
        if (opts.empty()) throw Infeasible();
        chosen = opts[0]; pa.trail->push_back({chosen, std::vector<int>(opts.begin() + 1, opts.end())});
    }
    int m = known & chosen; learn(d, m);
    if (m == 2 && solvable) { pa.bind[var] = expr; std::vector<std::unique_ptr<Ev<nat>>> none; pa.wit.swap(none); pa.nextseed = 1;
        for (auto& kv : pa.bind) if (kv.first != var) kv.second = subst(kv.second, {{var, expr}}); }
    else { int bv; Id be; if ((m == 1 || m == 3 || m == 4 || m == 6) && solve(d, bv, be) && !pa.bind.count(bv)) { nat root = (nat)const_eval(be), sl = (nat)const_eval(diff(d, bv)); auto& w = p.vars[bv]; auto it = pa.box.emplace(bv, std::make_pair(w.lo, w.hi)).first; bool up = (m & 4) ? sl > 0 : sl < 0; if (std::isfinite(root)) { if (up) it->second.first = std::max(it->second.first, root); else it->second.second = std::min(it->second.second, root); } }
        pa.facts.push_back({d, m}); std::vector<std::unique_ptr<Ev<nat>>> keep; for (auto& e : pa.wit) if (sgn(e->get(d)) & m) keep.push_back(std::move(e)); pa.wit.swap(keep); }
    return chosen;
}
bool less(Id a, Id b) { a = ck(a); b = ck(b); return sign_query(sub(a, b), {1, 6}) == 1; }
bool equal(Id a, Id b) { a = ck(a); b = ck(b); return sign_query(sub(a, b), {2, 5}) == 2; }
nat concrete(Id i) { i = ck(i); Pool& p = P(); if (p.isc(i)) return p.val(i).get_d(); if (i != p.bad && varsof(i).empty()) return (nat)const_eval(i); throw Undecidable("a symbolic value used as an integer"); }
}

// ==================================================================== contracts
namespace vf {
using namespace sym;
struct ContractDef { std::string name, fns; void (*f)(); };
static std::vector<ContractDef>& defs() { static auto* d = new std::vector<ContractDef>; return *d; }
Reg::Reg(const char* n, const char* fns, void (*f)()) { defs().push_back({n, fns, f}); }
enum Kind { EQ, EQC, LE, CHK };
struct Ob { std::string name; Kind k; Id a, b; nat tol; bool ok; std::string note; Id scale = 0; };
struct Result { long paths = 0, pruned = 0, total = 0, syn = 0, pit = 0, iv = 0, exec = 0, undecided = 0; double secs = 0; };
static std::vector<Ob> obs; static std::string cname;
static std::string q(const std::string& n) { return cname + "/" + n; }
Real in(const std::string& name, nat lo, nat hi) { Pool& p = P(); std::string k = q(name); auto it = p.vi.find(k); int v;
    if (it == p.vi.end()) { p.vars.push_back({k, lo, hi, {}}); v = p.vars.size() - 1; p.vi[k] = v; } else v = it->second; return R(p.mk(VAR, 0, 0, v)); }
Real opaque(const std::string& name, nat lo, nat hi, std::initializer_list<std::pair<std::string, std::string>> d) { Pool& p = P(); Real r = in(name, lo, hi); int v = p.vi[q(name)];
    for (auto& x : d) { int w = p.vi.at(q(x.first)); if (x.second.empty() || x.second == "0") continue; p.vars[v].der[w] = P().mk(VAR, 0, 0, p.vi.at(q(x.second))); } return r; }
Real D(Real f, const std::string& v) { valid(f.id); return R(diff(f.id, P().vi.at(q(v)))); }
void eq(const std::string& n, Real a, Real b) { obs.push_back({n, EQ, ck(a.id), ck(b.id), 0, false, ""}); }
void eqz(const std::string& n, Real a, Real s) { obs.push_back({n, EQ, ck(a.id), 0, 0, false, "", s.id}); }
void eqc(const std::string& n, Real a, Real b, nat tol) { obs.push_back({n, EQC, ck(a.id), ck(b.id), tol, false, ""}); }
void le(const std::string& n, Real a, Real b) { obs.push_back({n, LE, ck(a.id), ck(b.id), 0, false, ""}); }
void chk(const std::string& n, bool ok, const std::string& note) { obs.push_back({n, CHK, 0, 0, 0, ok, note}); }
static std::string as_text(nat v, int digits, char form) { char b[400], f[8] = {'%', '.', '*', form, 0}; snprintf(b, 400, f, digits, v); return b; }
void printed(const std::string& n, const std::string& text, Real want, int digits, char form) { Id i; if (is_token(text, i)) { eq(n, Real(Real::raw{}, i), want); auto k = text.find(":p"); obs.push_back({n + " in the digits asked for", CHK, 0, 0, 0, k != std::string::npos && text.substr(k + 2) == std::to_string(digits) + form + "}", text}); return; }
    Id w = ck(want.id); bool ok = P().isc(w) && text == as_text(P().val(w).get_d(), digits, form); obs.push_back({n, CHK, 0, 0, 0, ok, text}); }
void assume(bool c) { if (!c) throw PathAbort{"assume"}; }
bool equal(Real a, Real b) { Id x = ck(a.id), y = ck(b.id); if (cur && !cur->bind.empty()) { x = subst(x, cur->bind); y = subst(y, cur->bind); } return x == y || (!hasbad(x) && !hasbad(y) && pit_zero(sub(x, y), 3) == 1); }
void limit_branches(int n) { if (cur) { cur->branches = 0; cur->maxbranches = n; } }
void fork_eq(bool on) { g_fork_eq = on; }
void cover(const std::string& t) { if (cur) cur->covers.insert(t); }
int choose(const std::string& name, int n) { Path& pa = *cur; size_t at = pa.pos++; int c = 0; if (at < pa.trail->size()) c = (*pa.trail)[at].choice; else { std::vector<int> r; for (int i = 1; i < n; ++i) r.push_back(i); pa.trail->push_back({0, r}); } pa.choices.push_back(c); return c; }
bool choose(const std::string& name) { return choose(name, 2) == 1; }
std::string stamp() { return cname; }

static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string num(nat x) { char b[40]; if (std::isnan(x) || std::isinf(x)) return "null"; snprintf(b, 40, "%.17g", x); return b; }
static jmp_buf g_jb; static bool g_jb_on = false; static std::string g_bounds;
}
extern "C" [[noreturn]] void vf_bounds_fail(const char* file, int line, const char* cond) { vf::g_bounds = std::string(cond) + " at " + file + ":" + std::to_string(line); if (!vf::g_jb_on) { fprintf(stderr, "bounds: %s\n", vf::g_bounds.c_str()); abort(); } longjmp(vf::g_jb, 1); }
namespace vf {
struct ObRes { std::string name, status, by; long instances = 0; std::string detail; std::vector<std::string> points; };
}
int main(int argc, char** argv) {
    using namespace vf; std::string out = "/dev/stdout", only; int rounds = 4; double tmax = 600; long maxpaths = 20000; bool verbose = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--out") out = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--seed") g_seed = strtoull(argv[++i], 0, 10); else if (a == "--rounds") rounds = atoi(argv[++i]); else if (a == "--tmax") tmax = atof(argv[++i]); else if (a == "-v") verbose = true; else if (a == "--list") { for (auto& c : defs()) printf("%s\n", c.name.c_str()); return 0; } }
    std::ostringstream js_all; js_all << "{\"contracts\":[\n"; bool firstc = true;
    for (auto& c : defs()) {
        if (!only.empty() && c.name != only) continue;
        auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        cname = c.name; std::vector<Decision> trail; long paths = 0, aborted = 0, total = 0, unwit = 0; std::map<std::string, long> by; std::string err; double solve_s = 0; long gen0 = g_generic;
        std::set<std::string> covers; std::map<std::pair<Id, Id>, bool> proven;
        struct OR { std::string status = "proved", by, detail; long inst = 0; std::vector<std::string> points; nat best = 0; }; std::map<std::string, OR> res; std::vector<std::string> order; bool complete = true; long bounded_paths = 0;
        while (true) {
            Path pa; pa.trail = &trail; cur = &pa; obs.clear(); g_fork_eq = true; bool ok = true;
            g_jb_on = true; if (setjmp(g_jb)) { obs.push_back({"memory_safe", CHK, 0, 0, 0, false, "out-of-bounds access: " + g_bounds}); } else
            try { c.f(); } catch (BadCompare& e) { obs.push_back({"defined_before_use", CHK, 0, 0, 0, false, e.what()}); } catch (PathAbort&) { ok = false; ++aborted; } catch (Infeasible&) { ok = false; ++aborted; }
            catch (Undecidable& e) { err = e.what(); complete = false; ok = false; }
            catch (std::exception& e) { obs.push_back({"no_unexpected_exception", CHK, 0, 0, 0, false, std::string("exception: ") + e.what()}); }
            g_jb_on = false; ++paths;
            for (auto& x : pa.covers) if (ok) covers.insert(x);
            if (ok) {
                auto s0 = std::chrono::steady_clock::now();
                for (auto& o : obs) {
                    ++total; auto& r = res[o.name]; if (!r.inst++) order.push_back(o.name);
                    auto fail = [&](const std::string& how, Id a, Id b, bool needpoint) {
                        if (r.status == "refuted" && r.points.size() >= 12) return;
                        // numeric refutation inside the path condition
                        nat best = 0; std::string pt; Id d = sub(a, b); int found = 0; u64 lim = needpoint ? 600 : 300; bool ineq = o.k == LE; std::vector<std::pair<nat, std::string>> cand;
                        int walks = 0; for (u64 s = 1; s < lim + 12 && found < 60; ++s) { std::unique_ptr<Ev<nat>> e; if (s < lim) { e = std::make_unique<Ev<nat>>(); e->seed = mix(g_seed) + s; if (!holds_all(*e)) continue; } else { if (found > walks) break; e = walk(mix(g_seed) + s, 400); if (!e) continue; ++walks; } ++found; Ev<quad> E; E.seed = e->seed; E.fix = e->fix;
                            nat rel = 1; if (o.k != CHK) { quad x = E.get(a), y = E.get(b); if (isnanq(x) || isnanq(y) || isinfq(x) || isinfq(y)) continue; quad df = fabsq(x - y), sc = fabsq(x) + fabsq(y);
                                if (ineq) { if (x <= y) continue; } 
                                rel = sc > 0 ? (nat)(df / sc) : 0; if (o.k == EQC && y != 0) rel = (nat)fabsq(x / y - 1); if (o.scale && rel > 1e-22) { quad z = E.get(o.scale); if (!isnanq(z) && !isinfq(z) && z != 0) rel = std::max((nat)fabsq(df / z), (nat)1e-21); } }
                            if (rel > (o.k == EQC ? o.tol : 1e-22)) { std::ostringstream p; p << "{\"rel\":" << num(rel) << ",\"in\":{"; bool f = true; for (size_t v = 0; v < P().vars.size(); ++v) if (P().vars[v].name.compare(0, cname.size() + 1, cname + "/") == 0) { p << (f ? "" : ",") << js(P().vars[v].name.substr(cname.size() + 1)) << ":" << num(e->get(P().mk(VAR, 0, 0, v))); f = false; } p << "},\"choices\":["; for (size_t i = 0; i < pa.choices.size(); ++i) p << (i ? "," : "") << pa.choices[i]; p << "]}"; cand.push_back({rel, p.str()}); } }
                        std::sort(cand.begin(), cand.end(), [](auto& x, auto& y) { return x.first > y.first; });
                        if (!cand.empty()) { r.status = "refuted"; r.by = how; for (size_t i = 0; i < cand.size() && i < 4 && r.points.size() < 12; ++i) r.points.push_back(cand[i].second); r.best = std::max(r.best, cand[0].first); if (r.detail.empty()) r.detail = o.note.empty() ? show(a) + "  !=  " + show(b) : o.note; }
                        else if (!found && contradicts(0, 2, 8000)) { ++by["z3-path-infeasible"]; }
                        else if (r.status == "proved") { r.status = "undecided"; r.by = how; r.detail = (found ? "numerically equal but not proved: " : "no point of this path was found: ") + (o.k == CHK ? o.note : show(a, 120) + " vs " + show(b, 120)); } };
                    if (o.k == CHK) { if (o.ok) ++by["execution"]; else { r.detail = o.note; fail("execution", 0, 0, true); } continue; }
                    Id a = o.a, b = o.b; if (!pa.bind.empty()) { a = subst(a, pa.bind); b = subst(b, pa.bind); }
                    if (hasbad(a) || hasbad(b)) { r.detail = "undefined value (division by zero, log of a non-positive constant or uninitialised)"; Id bb = P().bad; (void)bb; Ob o2 = o; r.status = "refuted"; r.by = "definedness"; if (r.points.empty()) { Ob keep = o; o.k = CHK; o.note = "undefined value"; fail("definedness", 0, 0, true); o.k = keep.k; } continue; }
                    if (o.k == EQ) {
                        if (a == b) { ++by["syntactic"]; continue; }
                        auto key = std::make_pair(std::min(a, b), std::max(a, b)); if (proven.count(key)) { ++by["identity-test"]; continue; }
                        Id d = sub(a, b); int z = pit_zero(d, rounds); if (z == 1) { ++by["identity-test"]; proven[key] = true; continue; }
                        int sa = path_sign(a), sb = path_sign(b); if ((sa == sb && (sa == 1 || sa == 4)) || (!(sa & 1) && !(sb & 1)) || (!(sa & 4) && !(sb & 4))) { if (pit_zero(sub(pow_q(a, 2), pow_q(b, 2)), rounds) == 1) { ++by["squares-and-signs"]; continue; } }
                        if (Id e = rebuild(d); e != d && !hasbad(e) && pit_zero(e, rounds) == 1) { ++by["identity-test-on-path"]; continue; }
                        fail(z == 0 ? "identity-test" : "identity-test-incomplete", a, b, false);
                    } else if (o.k == EQC) {
                        if (a == b) { ++by["syntactic"]; continue; }
                        int z = b == 0 ? pit_zero(a, rounds) : pit_const_ratio(a, b); if (z == 1) { if (b == 0) { ++by["identity-test"]; continue; } Ev<quad> E; nat rr = NAN; for (u64 s = 1; s < 50 && std::isnan(rr); ++s) { E = Ev<quad>(); E.seed = mix(g_seed) + s; quad y = E.get(b), x = E.get(a); if (!isnanq(x) && !isnanq(y) && y != 0) rr = (nat)(x / y); } if (std::fabs(rr - 1) <= o.tol) { ++by["identity-test"]; continue; } }
                        fail("identity-test", a, b, false);
                    } else {
                        Id d = sub(b, a); int m = static_sign(d); if (!(m & 1)) { ++by["interval"]; continue; }
                        if (!(path_sign(d) & 1)) { ++by["path-condition"]; continue; }
                        if (contradicts(d, 1, 8000)) { ++by["z3"]; continue; }
                        fail("interval", a, b, false);
                    }
                }
                solve_s += std::chrono::duration<double>(std::chrono::steady_clock::now() - s0).count();
            }
            cur = nullptr;
            while (!trail.empty() && trail.back().options.empty()) trail.pop_back();
            if (trail.empty()) break;
            if (trail.size() > pa.pos) trail.resize(pa.pos);
            while (!trail.empty() && trail.back().options.empty()) trail.pop_back();
            if (trail.empty()) break;
            auto& t = trail.back(); t.choice = t.options.front(); t.options.erase(t.options.begin());
            if (paths > maxpaths || el() > tmax) { complete = false; err = "path or time budget exhausted"; break; }
        }
        js_all << (firstc ? "" : ",\n") << "{\"contract\":" << js(c.name) << ",\"functions\":" << js(c.fns) << ",\"paths\":" << paths << ",\"aborted\":" << aborted << ",\"obligation_instances\":" << total << ",\"complete\":" << (complete ? "true" : "false") << ",\"error\":" << js(err) << ",\"seconds\":" << num(el()) << ",\"solve_seconds\":" << num(solve_s) << ",\"generic_position\":" << (g_generic - gen0) << ",\"nodes\":" << P().n.size() << ",\"by\":{";
        bool f = true; for (auto& b : by) { js_all << (f ? "" : ",") << js(b.first) << ":" << b.second; f = false; } js_all << "},\"covers\":["; f = true; for (auto& x : covers) { js_all << (f ? "" : ",") << js(x); f = false; }
        js_all << "],\"z3_queries\":" << g_z3_calls << ",\"obligations\":["; f = true;
        for (auto& n : order) { auto& r = res[n]; js_all << (f ? "" : ",") << "\n {\"name\":" << js(n) << ",\"status\":" << js(r.status) << ",\"instances\":" << r.inst << ",\"by\":" << js(r.by) << ",\"detail\":" << js(r.detail) << ",\"best\":" << num(r.best) << ",\"points\":["; bool g = true; for (auto& p : r.points) { js_all << (g ? "" : ",") << p; g = false; } js_all << "]}"; f = false; }
        js_all << "]}"; firstc = false;
        if (verbose) { fprintf(stderr, "%-40s paths %ld obs %ld %.2fs nodes %zu %s\n", c.name.c_str(), paths, total, el(), P().n.size(), err.c_str()); for (auto& n : order) if (res[n].status != "proved") fprintf(stderr, "   %-10s %-40s [%s] rel=%g %s\n", res[n].status.c_str(), n.c_str(), res[n].by.c_str(), res[n].best, res[n].detail.substr(0, 300).c_str()); }
    }
    js_all << "\n],\"pit_rounds\":" << g_pit_rounds << "}\n"; std::ofstream(out) << js_all.str(); return 0;
}

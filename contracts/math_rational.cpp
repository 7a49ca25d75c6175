// PROPERTY: P18
// LEMMA: gcd.lean
// ASSUME: gcd and lcm are used through their contracts (math_gcd.cpp): the specification functions gcd and lcm; Rational values are in lowest terms with non-zero denominator
// REPLACE: unsigned int sparta::utils::gcd<unsigned int>(unsigned int, unsigned int) => st_gcd32
// REPLACE: unsigned long sparta::utils::gcd<unsigned long>(unsigned long, unsigned long) => st_gcd64
// REPLACE: unsigned int sparta::utils::lcm<unsigned int>(unsigned int const&, unsigned int const&) => st_lcm32
// REPLACE: unsigned long sparta::utils::lcm<unsigned long>(unsigned long const&, unsigned long const&) => st_lcm64
// OPT: soft=1
#include "verif.h"
#include <sstream>
#include <cassert>
#include "sparta/utils/Rational.hpp"
using sparta::utils::Rational;
static uint64_t G(uint64_t u, uint64_t v) { uint64_t a = u < v ? u : v, b = u < v ? v : u, g = v_uf2("gcd", a, b); v_assume((a == 0) | (b == 0) | ((g >= 1) & (g <= a))); v_assume((a != 0) | (g == b)); return g; }
static uint64_t L(uint64_t u, uint64_t v) { uint64_t m = v_uf2("lcm", u < v ? u : v, u < v ? v : u); v_assume((u == 0) | (v == 0) | (m != 0)); return m; }
extern "C" {
uint32_t st_gcd32(uint32_t u, uint32_t v) { return G(u, v); }
uint64_t st_gcd64(uint64_t u, uint64_t v) { return G(u, v); }
uint32_t st_lcm32(const uint32_t& u, const uint32_t& v) { return L(u, v); }
uint64_t st_lcm64(const uint64_t& u, const uint64_t& v) { return L(u, v); }
}
template <class T> static T any(const char* n);
template <> uint32_t any<uint32_t>(const char* n) { return v_u32(n); }
template <> uint64_t any<uint64_t>(const char* n) { return v_u64(n); }
// r is n/d in lowest terms
template <class T> static void is(const Rational<T>& r, T n, T d, const char* what) {
    T g = n == 0 ? d : (T)G(n, d);
    v_assert(r.getNumerator() == T(n / g) && r.getDenominator() == T(d / g), what);
}
template <class T> static Rational<T> mk(T n, T d) { Rational<T> r; r.n_ = n; r.d_ = d; return r; }
template <class T> static void go(unsigned lo, unsigned hi) {
    T a = any<T>("a"), b = any<T>("b"), c = any<T>("c"), d = any<T>("d");
    v_assume(b != 0 && d != 0);
    unsigned k = v_u8("op");
    v_assume(k >= lo && k <= hi);
    if (k == 0) { is(Rational<T>(a, b), a, b, "construct.lowest-terms"); return; }
    Rational<T> x = mk(a, b), y = mk(c, d);
    if (k == 1 || k == 2) {
        v_assume(T(b * d) != 0);
        if (k == 1) is(x * y, T(a * c), T(b * d), "product"); else { x *= y; is(x, T(a * c), T(b * d), "product"); }
    } else if (k == 3 || k == 4) {
        v_assume(T(b * c) != 0);
        if (k == 3) is(x / y, T(a * d), T(b * c), "quotient"); else { x /= y; is(x, T(a * d), T(b * c), "quotient"); }
    } else if (k >= 5 && k <= 8) {
        T m = b == d ? b : (T)L(b, d);
        v_assume(m != 0);
        T p = b == d ? a : T(a * T(m / b)), q = b == d ? c : T(c * T(m / d));
        if (k == 5) is(x + y, T(p + q), m, "sum");
        if (k == 6) { x += y; is(x, T(p + q), m, "sum"); }
        if (k == 7) is(x - y, p > q ? T(p - q) : T(q - p), m, "distance");
        if (k == 8) { x -= y; is(x, p > q ? T(p - q) : T(q - p), m, "distance"); }
    } else if (k == 9) {
        v_assume(a != 0);
        is(x.inv(), b, a, "inverse");
    } else if (k == 10) {
        Rational<T> z(y);
        Rational<T> w; w = x;
        v_assert(z.n_ == c && z.d_ == d && w.n_ == a && w.d_ == b, "copy");
    } else if (k == 11) { T h = a; x *= x; v_assume(T(b * b) != 0); is(x, T(h * h), T(b * b), "self-product"); }
    else if (k == 12) { x -= x; is(x, T(0), b, "self-difference"); }
    else if (k == 13) { x += x; is(x, T(a + a), b, "self-sum"); }
}
extern "C" void vh_rational32_mul() { go<uint32_t>(0, 2); }
extern "C" void vh_rational32_div() { go<uint32_t>(3, 4); }
extern "C" void vh_rational32_add() { go<uint32_t>(5, 6); }
extern "C" void vh_rational32_sub() { go<uint32_t>(7, 8); }
extern "C" void vh_rational32_other() { go<uint32_t>(9, 13); }
extern "C" void vh_rational64_mul() { go<uint64_t>(0, 2); }
extern "C" void vh_rational64_div() { go<uint64_t>(3, 4); }
extern "C" void vh_rational64_add() { go<uint64_t>(5, 6); }
extern "C" void vh_rational64_sub() { go<uint64_t>(7, 8); }
extern "C" void vh_rational64_other() { go<uint64_t>(9, 13); }

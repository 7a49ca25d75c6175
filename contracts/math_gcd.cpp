// PROPERTY: P18
// LEMMA: gcd.lean
// ASSUME: log2_lsb is used through its contract (math.cpp: log2_lsb.*); the specification function gcd satisfies the facts proved in lemmas/gcd.lean
// REPLACE: unsigned int sparta::utils::log2_lsb<unsigned int>(unsigned int const&) => st_lsb32
// REPLACE: unsigned int sparta::utils::log2_lsb<unsigned long>(unsigned long const&) => st_lsb64
// OPT: soft=1
#include "verif.h"
#include "sparta/utils/MathUtils.hpp"
using namespace sparta;
static uint64_t lsb(uint64_t x) { return v_uf("lsb", x); }
static bool lsbOk(uint64_t x) { uint64_t r = lsb(x); return (r < 64) & (((x >> r) & 1) == 1) & ((x >> r << r) == x); }
extern "C" {
uint32_t st_lsb32(const uint32_t& x) { v_assert(x != 0, "log2_lsb.requires-nonzero"); v_assume(lsbOk(x)); return lsb(x); }
uint32_t st_lsb64(const uint64_t& x) { v_assert(x != 0, "log2_lsb.requires-nonzero"); v_assume(lsbOk(x)); return lsb(x); }
}
static uint64_t G(uint64_t u, uint64_t v) { return v_uf2("gcd", u, v); }
static uint64_t g0_;
// u odd, v nonzero and gcd(u, v) is the wanted value; with the lemma for one step:
// gcd(u, v) = gcd(u, w) = gcd(lo, hi - lo), w = v without its twos
static bool inv(void*, uint64_t u, uint64_t v) {
    v_assume((v == 0) | lsbOk(v));
    uint64_t w = v == 0 ? 0 : v >> lsb(v), lo = u < w ? u : w, hi = u < w ? w : u;
    v_assume(((u & 1) == 0) | (v == 0) | ((G(u, v) == G(lo, hi - lo)) & (G(lo, 0) == lo)));
    return ((u & 1) == 1) & (v != 0) & (G(u, v) == g0_);
}
template <class T> static void check(T u, T v) {
    if (u == 0 || v == 0) { v_assert(utils::gcd<T>(u, v) == (u | v), "gcd.with-zero"); return; }
    // lemma: the common twos factor out, and the twos of u beyond them do not matter
    v_assume(lsbOk(u | v));
    uint64_t s = lsb(T(u | v)), U = u >> s, V = v >> s;
    v_assume(lsbOk(U));
    uint64_t u1 = U >> lsb(U);
    g0_ = G(u1, V);
    v_inv2(inv, nullptr);
    T r = utils::gcd<T>(u, v);
    v_cover("returned");
    v_assert(r == T(g0_ << s), "gcd.is-the-greatest-common-divisor");
}
extern "C" void vh_gcd32() { check<uint32_t>(v_u32("u"), v_u32("v")); }
extern "C" void vh_gcd64() { check<uint64_t>(v_u64("u"), v_u64("v")); }

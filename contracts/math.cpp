// PROPERTY: P18
// REPLACE: =log2 => st_log2
// REPLACE: double sparta::utils::log2(double) => st_log2
// ASSUME: log2 of a power of two is exact (libm)
// ENTRY: vh_power32 soft=1
// ENTRY: vh_power64 soft=1
#include "verif.h"
#include <limits>
#include "sparta/utils/MathUtils.hpp"
#include "sparta/utils/Utils.hpp"
using namespace sparta;
extern "C" void vh_log2_lsb32() {
    uint32_t x = v_u32("x");
    v_assume(x != 0);
    uint32_t r = utils::log2_lsb(x);
    v_assert(r < 32 && ((x >> r) & 1) && (x & ((1u << r) - 1)) == 0, "log2_lsb.index-of-the-lowest-set-bit");
}
extern "C" void vh_log2_lsb64() {
    uint64_t x = v_u64("x");
    v_assume(x != 0);
    uint32_t r = utils::log2_lsb(x);
    v_assert(r < 64 && ((x >> r) & 1) && (x & ((1ull << r) - 1)) == 0, "log2_lsb.index-of-the-lowest-set-bit");
}
extern "C" void vh_floor_log2_32() { uint32_t x = v_u32("x"); v_assume(x != 0); uint64_t r = utils::floor_log2(x); v_assert(r < 32 && (x >> r) == 1, "floor_log2.index-of-the-highest-set-bit"); }
extern "C" void vh_floor_log2_64() { uint64_t x = v_u64("x"); v_assume(x != 0); uint64_t r = utils::floor_log2(x); v_assert(r < 64 && (x >> r) == 1, "floor_log2.index-of-the-highest-set-bit"); }
static uint64_t x0_;
static bool shifted(void*, uint64_t x, uint64_t y) { return (y < 64) & (x == (x0_ >> y)) & (x != 0); }
extern "C" void vh_floor_log2_16() { uint16_t x = v_u16("x"); v_assume(x != 0); x0_ = x; v_inv2(shifted, nullptr); uint64_t r = utils::floor_log2(x); v_assert(r < 16 && (x >> r) == 1, "floor_log2.index-of-the-highest-set-bit"); }
extern "C" void vh_floor_log2_8() { uint8_t x = v_u8("x"); v_assume(x != 0); x0_ = x; v_inv2(shifted, nullptr); uint64_t r = utils::floor_log2(x); v_assert(r < 8 && (x >> r) == 1, "floor_log2.index-of-the-highest-set-bit"); }
extern "C" void vh_ceil_log2() {
    uint64_t x = v_u64("x");
    v_assume(x != 0);
    uint64_t y = utils::ceil_log2(x);
    v_assert(y <= 64 && (y == 64 || x <= (1ull << y)) && (y == 0 ? x == 1 : x > (1ull << (y - 1))), "ceil_log2.least-power-not-below");
}
extern "C" void vh_pow2() { uint64_t x = v_u64("x"), k = v_u64("k"); v_assume(x < 64 && k < 64); v_assert(((utils::pow2(x) >> k) & 1) == (k == x), "pow2.single-bit"); }
extern "C" void vh_ones() { uint64_t x = v_u64("x"), k = v_u64("k"); v_assume(x <= 64 && k < 64); v_assert(((utils::ones(x) >> k) & 1) == (k < x), "ones.exactly-the-low-bits"); }
extern "C" void vh_is_power_of_2() {
    uint64_t x = v_u64("x"), k = v_u64("k"), i = v_u64("i"), j = v_u64("j");
    v_assume(k < 64 && i < 64 && j < 64 && i != j);
    bool two = ((x >> i) & 1) && ((x >> j) & 1);
    v_assert(utils::is_power_of_2(1ull << k) && isPowerOf2(1ull << k), "is_power_of_2.accepts-every-power");
    v_assert(!(two && (utils::is_power_of_2(x) || isPowerOf2(x))), "is_power_of_2.rejects-two-set-bits");
    v_assert(!utils::is_power_of_2(0), "is_power_of_2.rejects-zero");
    v_assert(isPowerOf2(0), "isPowerOf2.accepts-zero-as-documented");
}
extern "C" void vh_next_power_of_2() {
    uint64_t v = v_u64("v");
    v_assume(v <= (1ull << 63));
    uint64_t r = utils::next_power_of_2(v);
    v_assert(r != 0 && (r & (r - 1)) == 0, "next_power_of_2.is-a-power");
    v_assert(r >= v && (v < 2 ? r == 1 : (r >> 1) < v), "next_power_of_2.least-not-below");
}
extern "C" void vh_abs() {
    int64_t a = (int64_t)v_u64("a"); int32_t b = (int32_t)v_u32("b");
    v_assume(a != INT64_MIN && b != INT32_MIN);
    v_assert(utils::abs(a) >= 0 && (utils::abs(a) == a || utils::abs(a) == -a), "abs.int64");
    v_assert(utils::abs(b) >= 0 && (utils::abs(b) == b || utils::abs(b) == -b), "abs.int32");
    uint8_t c = v_u8("c"); uint16_t d = v_u16("d"); uint32_t e = v_u32("e"); uint64_t f = v_u64("f");
    v_assert(utils::abs(c) == (uint8_t)((int8_t)c < 0 ? -(int8_t)c : c), "abs.uint8");
    v_assert(utils::abs(d) == (uint16_t)((int16_t)d < 0 ? -(int16_t)d : d), "abs.uint16");
    v_assert(utils::abs(e) == ((int32_t)e < 0 ? 0u - e : e), "abs.uint32");
    v_assert(utils::abs(f) == ((int64_t)f < 0 ? 0ull - f : f), "abs.uint64");
}
template <class T> static void maskOf() {
    // every power of two the type can hold; log2 of a power of two is exact
    for (unsigned k = 0; k < sizeof(T) * 8; ++k) {
        T size = T(1) << k, lsb = 0, x = T(v_u64("x"));
        T m = computeMask<T>(size, lsb);
        v_assert(lsb == k, "computeMask.position");
        v_assert(m == T(T(0) - size), "computeMask.rounds-down-to-a-multiple");
        (void)x;
    }
    T lsb = 0;
    v_assert(computeMask<T>(0, lsb) == 0 && lsb == sizeof(T) * 8, "computeMask.zero");
}
extern "C" {
double st_log2(double x) { uint64_t s = (uint64_t)x; unsigned k = 0; while (s > 1) { s >>= 1; ++k; } return k; }
}
extern "C" void vh_mask32() { maskOf<uint32_t>(); }
extern "C" void vh_mask64() { maskOf<uint64_t>(); }
// checked power
static uint64_t P(uint64_t k) { return v_uf("power", k); }
struct PW { uint64_t n; unsigned bits; };
static PW pw_;
static bool over(uint64_t k) { if (pw_.bits == 32) { uint32_t t; return __builtin_mul_overflow(uint32_t(P(k)), uint32_t(pw_.n), &t); } uint64_t t; return __builtin_mul_overflow(P(k), pw_.n, &t); }
static bool powInv(void*, uint64_t r, uint64_t x) { v_assume(over(x) | (P(x + 1) == P(x) * pw_.n)); return (x >= 1) & (r == P(x)); }
template <class T> static void power() {
    T n = T(v_u64("n")), e = T(v_u64("e"));
    pw_.n = n; pw_.bits = sizeof(T) * 8;
    v_assume((P(1) == n) & (P(0) == 1));
    v_inv2(powInv, nullptr);
    bool threw = false;
    T r = 0;
    try { r = utils::safe_power<T>(n, e); } catch (const SpartaException&) { threw = true; }
    if (!threw) { v_cover("value"); v_assert(r == T(P(e)), "safe_power.value"); }
    else v_cover("overflow");
}
extern "C" void vh_power32() { power<uint32_t>(); }
extern "C" void vh_power64() { power<uint64_t>(); }

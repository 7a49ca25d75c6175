// PROPERTY: P17
// ASSUME: std::rotate and heap-allocated BitArrays of symbolic size are only covered by the bounded part; bitwise operations and conversions are proved for every size
#include "verif.h"
#include <cstring>
#include <algorithm>
#include "sparta/utils/BitArray.hpp"
using sparta::utils::BitArray;
// an array of n bytes (n symbolic): representation invariant data_ -> n bytes
struct A { BitArray* a; uint8_t* d; size_t n; };
static A mk(const char* nm, size_t n) {
    A r; r.a = v_obj<BitArray>(nm); r.n = n; r.d = (uint8_t*)v_array("bytes", n, 1);
    r.a->data_ = r.d; r.a->data_size_ = n;
    return r;
}
struct M { uint8_t *d, *e; uint64_t g, lim; uint8_t d0, e0; int op; };
static M m_;
static uint8_t res() { return m_.op == 0 ? m_.d0 & m_.e0 : m_.op == 1 ? m_.d0 | m_.e0 : m_.op == 2 ? uint8_t(~m_.d0) : m_.e0; }
static bool inv(void*, uint64_t i) { return m_.d[m_.g] == ((m_.g < i) & (m_.g < m_.lim) ? res() : m_.d0); }
static size_t sz(const char* n) { size_t x = v_u64(n); v_assume(x >= 1 && x < (1ull << 40)); return x; }
extern "C" void vh_and_or() {
    size_t n = sz("n"), k = sz("k"); uint64_t g = v_u64("g"); v_assume(g < n);
    A x = mk("x", n), y = mk("y", k);
    bool an = v_bool("and");
    m_ = M{x.d, y.d, g, n < k ? n : k, x.d[g], g < k ? y.d[g] : uint8_t(0), an ? 0 : 1};
    uint64_t h = v_u64("h"); v_assume(h < k); uint8_t h0 = y.d[h];
    v_inv(inv, nullptr, 1);
    if (an) *x.a &= *y.a; else *x.a |= *y.a;
    v_assert(x.d[g] == (g < k ? res() : m_.d0), "and-or.every-byte");
    v_assert(y.d[h] == h0 && x.a->getSize() == n && y.a->getSize() == k, "and-or.nothing-else");
}
extern "C" void vh_not() {
    size_t n = sz("n"); uint64_t g = v_u64("g"); v_assume(g < n);
    A x = mk("x", n);
    m_ = M{x.d, nullptr, g, n, x.d[g], 0, 2};
    v_inv(inv, nullptr, 1);
    BitArray::negate_(*x.a);
    v_assert(x.d[g] == uint8_t(~m_.d0), "not.every-byte");
}
template <class T> static void filled() {
    size_t n = sz("n"); uint64_t g = v_u64("g"); v_assume(g < n);
    A x = mk("x", n);
    T v = T(v_u64("value"));
    m_ = M{x.d, nullptr, g, n, x.d[g], uint8_t(v >> (8 * (g % sizeof(T)))), 3};
    v_inv(inv, nullptr, 1);
    x.a->template fill<T>(v);
    v_assert(x.d[g] == m_.e0, "fill.repeats-the-value");
}
extern "C" void vh_fill8() { filled<uint8_t>(); }
extern "C" void vh_fill16() { filled<uint16_t>(); }
extern "C" void vh_fill32() { filled<uint32_t>(); }
extern "C" void vh_fill64() { filled<uint64_t>(); }
template <size_t N> static void get() {
    uint8_t* d = (uint8_t*)v_raw("bytes", N);
    BitArray* a = v_obj<BitArray>("array"); a->data_ = d; a->data_size_ = N;
    uint64_t v = a->getValue<uint64_t>();
    for (size_t i = 0; i < 8; ++i) v_assert(uint8_t(v >> (8 * i)) == (i < N ? d[i] : 0), "getValue.little-endian-zero-extended");
    v_assert(a->getValue<uint32_t>() == uint32_t(v) && a->getValue<uint8_t>() == d[0] && a->getValue() == d, "getValue.truncates");
    BitArray b(d, N), c(d, N, 12);
    for (size_t i = 0; i < 12; ++i) v_assert((i >= N || ((uint8_t*)b.getValue())[i] == d[i]) && ((uint8_t*)c.getValue())[i] == (i < N ? d[i] : 0), "construct.bytes-in-order-zero-extended");
    BitArray e(c), f(0); f = b;
    v_assert(e == c && f == b && e.getSize() == 12 && f.getSize() == N, "copy.equal");
}
extern "C" void vh_get() { get<1>(); get<2>(); get<3>(); get<4>(); get<5>(); get<7>(); get<8>(); get<9>(); get<16>(); }
// shifts of arrays that hold an integer: all values, all amounts
template <class T> static void shifts(unsigned amount) {
    T v = T(v_u64("v"));
    BitArray x(v);
    v_assert((x << amount).getValue<T>() == T(amount >= sizeof(T) * 8 ? 0 : T(v << amount)), "shift-left");
    v_assert((x >> amount).getValue<T>() == T(amount >= sizeof(T) * 8 ? 0 : v >> amount), "shift-right");
    BitArray y(x); y <<= amount; v_assert(y == (x << amount), "shift-left-in-place");
    BitArray z(x); z >>= amount; v_assert(z == (x >> amount), "shift-right-in-place");
    v_assert(x.getValue<T>() == v, "shift.operand-unchanged");
    BitArray w(T(0)); w = x; w <<= 1; v_assert(x.getValue<T>() == v, "copy.independent");
}
template <class T, unsigned K, unsigned L> static void all(unsigned a) { if (a == K) shifts<T>(K); else if constexpr (K < L) all<T, K + 1, L>(a); }
extern "C" void vh_shift8() { all<uint8_t, 0, 20>(v_u32("amount")); }
extern "C" void vh_shift16() { all<uint16_t, 0, 20>(v_u32("amount")); }
extern "C" void vh_shift32() { all<uint32_t, 0, 40>(v_u32("amount")); }
extern "C" void vh_shift64a() { all<uint64_t, 0, 31>(v_u32("amount")); }
extern "C" void vh_shift64b() { all<uint64_t, 32, 68>(v_u32("amount")); }
extern "C" void vh_shift_beyond() { unsigned a = v_u32("amount"); v_assume(a > 64); shifts<uint32_t>(a); shifts<uint64_t>(a); }

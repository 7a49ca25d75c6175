// PROPERTY: P17
// ASSUME: RegisterBits hold power-of-two numbers of bytes (register sizes); wide values (16, 32 bytes) stand for the wide ones in shifts
#include "verif.h"
#include <cstring>
#include <array>
#include <memory>
#include <limits>
#include <functional>
#include "sparta/functional/RegisterBits.hpp"
using sparta::RegisterBits;
// an integer of N bytes as 64-bit words (little endian)
template <unsigned N> struct V {
    static const unsigned W = (N + 7) / 8;
    uint64_t w[W];
    static uint64_t mask() { return N >= 8 ? ~0ull : (1ull << (8 * (N & 7))) - 1; }
    static V any(const char* n) { V r; for (unsigned i = 0; i < W; ++i) r.w[i] = v_u64(n) & mask(); return r; }
    V shl(unsigned a) const { V r; for (unsigned i = 0; i < W; ++i) { unsigned k = a / 64, b = a % 64; uint64_t x = i >= k ? w[i - k] << b : 0; if (b && i >= k + 1) x |= w[i - k - 1] >> (64 - b); r.w[i] = x & mask(); } return r; }
    V shr(unsigned a) const { V r; for (unsigned i = 0; i < W; ++i) { unsigned k = a / 64, b = a % 64; uint64_t x = i + k < W ? w[i + k] >> b : 0; if (b && i + k + 1 < W) x |= w[i + k + 1] << (64 - b); r.w[i] = x; } return r; }
};
template <unsigned N> static bool eq(const RegisterBits& b, const V<N>& v) {
    if (b.getSize() != N) return false;
    if (N < 8) { uint64_t x = 0; memcpy(&x, b.data(), N); return x == v.w[0]; }
    bool ok = true;
    for (unsigned i = 0; i < V<N>::W; ++i) { uint64_t x; memcpy(&x, b.data() + 8 * i, 8); ok &= x == v.w[i]; }
    return ok;
}
// the three ways to hold a value: own copy, reference to constant data, reference to writable data
template <unsigned N> struct H {
    uint8_t* ext;
    RegisterBits b;
    const V<N> v;
    H(const V<N>& x, unsigned how) : ext((uint8_t*)v_raw("ext", N)), b(how == 0 ? RegisterBits(N) : how == 1 ? RegisterBits((const uint8_t*)ext, N) : RegisterBits(ext, N)), v(x) {
        memcpy(how == 0 ? b.local_data_ : ext, x.w, N);
    }
};
template <unsigned N> static void bitwise() {
    V<N> x = V<N>::any("x"), y = V<N>::any("y"), o, a, n;
    for (unsigned i = 0; i < V<N>::W; ++i) { o.w[i] = x.w[i] | y.w[i]; a.w[i] = x.w[i] & y.w[i]; n.w[i] = ~x.w[i] & V<N>::mask(); }
    for (unsigned how = 0; how < 3; ++how) {
        H<N> p(x, how), q(y, 1);
        v_assert(eq<N>(p.b, x), "value");
        v_assert(eq<N>(p.b | q.b, o), "or");
        v_assert(eq<N>(p.b & q.b, a), "and");
        v_assert(eq<N>(~p.b, n), "not");
        v_assert(eq<N>(p.b, x) && eq<N>(q.b, y), "bitwise.operands-unchanged");
        bool zero = true;
        for (unsigned i = 0; i < V<N>::W; ++i) zero &= x.w[i] == 0;
        if (N <= 16) v_assert(p.b.none() == zero && p.b.any() == !zero, "none-any");
        if (N <= 16) v_assert((p.b == q.b) == eq<N>(p.b, y), "equality");
        RegisterBits c(p.b);
        v_assert(eq<N>(c, x), "copy");
        v_assert(p.b.template dataAs<uint64_t>() == x.w[0] && p.b.template dataAs<uint16_t>() == uint16_t(x.w[0]), "dataAs");
        c |= q.b;
        v_assert(eq<N>(c, o), "or-in-place");
        v_assert(eq<N>(p.b, x) && eq<N>(q.b, y), "or-in-place.operand-and-copied-value-unchanged");
        RegisterBits d(std::move(p.b));
        v_assert(eq<N>(d, x), "move");
        uint8_t f = v_u8("fill");
        d.fill(f);
        for (unsigned i = 0; i < N; ++i) v_assert(*d[i] == f, "fill");
    }
}
extern "C" void vh_bitwise1() { bitwise<1>(); }
extern "C" void vh_bitwise2() { bitwise<2>(); }
extern "C" void vh_bitwise4() { bitwise<4>(); }
extern "C" void vh_bitwise8() { bitwise<8>(); }
extern "C" void vh_bitwise16() { bitwise<16>(); }
extern "C" void vh_bitwise32() { bitwise<32>(); }
template <unsigned N> static void shifts(unsigned k) {
    V<N> x = V<N>::any("x");
    H<N> p(x, 0), q(x, 1);
    v_assert(eq<N>(p.b << k, x.shl(k)) && eq<N>(q.b << k, x.shl(k)), "shift-left");
    v_assert(eq<N>(p.b >> k, x.shr(k)) && eq<N>(q.b >> k, x.shr(k)), "shift-right");
    v_assert(eq<N>(p.b, x) && eq<N>(q.b, x), "shift.operand-unchanged");
    p.b <<= k; q.b <<= k;
    v_assert(eq<N>(p.b, x.shl(k)) && eq<N>(q.b, x.shl(k)), "shift-left-in-place");
}
template <unsigned N> static void wideBeyond() { unsigned a = v_u32("amount"); v_assume(a >= 8 * N); V<N> x = V<N>::any("x"), z; for (unsigned i = 0; i < V<N>::W; ++i) z.w[i] = 0; H<N> p(x, 0); v_assert(eq<N>(p.b << a, z) && eq<N>(p.b >> a, z), "shift.beyond-the-width"); p.b <<= a; v_assert(eq<N>(p.b, z), "shift.beyond-the-width"); }
extern "C" void vh_shift_beyond() { wideBeyond<1>(); wideBeyond<2>(); wideBeyond<4>(); wideBeyond<8>(); wideBeyond<16>(); wideBeyond<32>(); wideBeyond<64>(); }
template <unsigned N> static void narrow() {
    unsigned a = v_u32("amount"); v_assume(a < 8 * N); uint64_t x = v_u64("x") & V<N>::mask(); V<N> X; X.w[0] = x; V<N> l, r; l.w[0] = (x << a) & V<N>::mask(); r.w[0] = x >> a;
    H<N> p(X, 0), q(X, 1);
    v_assert(eq<N>(p.b << a, l) && eq<N>(q.b << a, l), "shift-left");
    v_assert(eq<N>(p.b >> a, r) && eq<N>(q.b >> a, r), "shift-right");
    p.b <<= a; q.b <<= a;
    v_assert(eq<N>(p.b, l) && eq<N>(q.b, l), "shift-left-in-place");
}
extern "C" void vh_shift_narrow() { narrow<1>(); narrow<2>(); narrow<4>(); narrow<8>(); }
template <unsigned N, unsigned K, unsigned L> static void all(unsigned a) { if (a == K) shifts<N>(K); else if constexpr (K < L) all<N, K + 1, L>(a); }
#define S(N, A, B) extern "C" void vh_shift##N##_##A() { all<N, A, B>(v_u32("amount")); }
S(16, 0, 47) S(16, 48, 95) S(16, 96, 127)
S(32, 0, 47) S(32, 48, 95) S(32, 96, 143) S(32, 144, 191) S(32, 192, 255)

// PROPERTY: P17
#include <exception>
#include <cstring>
#include <algorithm>
#include <array>
#include <memory>
#include <limits>
#include <functional>
#include "sparta/utils/ByteOrder.hpp"
#include "sparta/utils/Bits.hpp"
#include "sparta/utils/BitArray.hpp"
#include "sparta/functional/RegisterBits.hpp"
#include "oracle.h"
using namespace sparta;
typedef std::vector<uint8_t> B;
static B rnd(Rng& r, size_t n) { B b(n); unsigned k = r.below(5); for (auto& x : b) x = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (r.chance(20) ? r.next() : 0) : k == 3 ? 0x80 >> r.below(8) : r.next(); if (r.chance(10)) std::fill(b.begin(), b.end(), r.next()); return b; }
static B shl(const B& a, size_t k) { B o(a.size()); for (size_t i = 0; i < a.size() * 8; ++i) if (i >= k && (a[(i - k) / 8] >> ((i - k) % 8) & 1)) o[i / 8] |= 1 << (i % 8); return o; }
static B shr(const B& a, size_t k) { B o(a.size()); for (size_t i = 0; i < a.size() * 8; ++i) { size_t j = i + k; if (j < a.size() * 8 && (a[j / 8] >> (j % 8) & 1)) o[i / 8] |= 1 << (i % 8); } return o; }
static B bw(const B& a, const B& b, int op) { B o(a); for (size_t i = 0; i < a.size(); ++i) o[i] = op == 2 ? ~a[i] : i < b.size() ? (op ? a[i] | b[i] : a[i] & b[i]) : a[i]; return o; }
static void same(const utils::BitArray& x, const B& b, const char* w) { CHECKEQ(x.getSize(), b.size(), "size"); CHECK(!memcmp(x.getValue(), b.data(), b.size()), w); uint64_t v = 0; memcpy(&v, b.data(), std::min<size_t>(8, b.size())); CHECKEQ(x.getValue<uint64_t>(), v, "getValue"); CHECKEQ(x.getValue<uint16_t>(), uint16_t(v), "getValue"); }
static void bitarray(Rng& r) {
    size_t n = r.range(1, 40), m = r.chance(60) ? n : r.range(1, 40);
    B a = rnd(r, n), b = rnd(r, m);
    size_t k = r.chance(90) ? r.below(n * 8 + 1) : r.below(2000);
    CASE("BitArray of %zu and %zu bytes, shift %zu", n, m, k);
    utils::BitArray x(a.data(), n), y(b.data(), m);
    same(x, a, "construction"); CHECKEQ(x == y, a == b, "equality"); CHECKEQ(x != y, a != b, "inequality");
    OP("<<"); same(x << k, shl(a, k), "shift left"); OP(">>"); same(x >> k, shr(a, k), "shift right");
    same(x & y, bw(a, b, 0), "and"); same(x | y, bw(a, b, 1), "or"); same(~x, bw(a, b, 2), "not"); same(x, a, "operand unchanged"); same(y, b, "operand unchanged");
    utils::BitArray z(x), w(uint8_t(r.next()), r.range(1, 40));
    w = x; same(w, a, "assignment"); w <<= k; same(x, a, "assignment is a copy"); same(w, shl(a, k), "shift left in place"); w = w; same(w, shl(a, k), "self assignment");
    z >>= k; same(z, shr(a, k), "shift right in place"); same(x, a, "copy is independent");
    z = x; z &= y; same(z, bw(a, b, 0), "and in place"); z = x; z |= y; same(z, bw(a, b, 1), "or in place");
    { utils::BitArray v(std::move(z)); same(v, bw(a, b, 1), "move"); v = std::move(w); same(v, shl(a, k), "move assignment"); std::vector<utils::BitArray> vs; for (int i = 0; i < 5; ++i) vs.push_back(v); for (auto& q : vs) same(q, shl(a, k), "in a container"); }
    uint64_t f = r.next(); x.fill<uint32_t>(f); B c(n); for (size_t i = 0; i < n; ++i) c[i] = f >> (8 * (i % 4)); same(x, c, "fill");
    uint32_t v32 = r.next(); size_t s = r.range(1, 12); utils::BitArray q(v32, s); B d(s); memcpy(d.data(), &v32, std::min<size_t>(4, s)); same(q, d, "construction from an integer");
}
static void same(const RegisterBits& x, const B& b, const char* w) { CHECKEQ(x.getSize(), b.size(), "size"); CHECK(!memcmp(x.data(), b.data(), b.size()), w); uint64_t v = 0; memcpy(&v, b.data(), std::min<size_t>(8, b.size())); CHECKEQ(x.dataAs<uint64_t>(), v, "dataAs"); bool z = true; for (auto c : b) z &= !c; CHECKEQ(x.none(), z, "none"); CHECKEQ(x.any(), !z, "any"); }
static void regbits(Rng& r) {
    size_t n = size_t(1) << r.below(7);
    B a = rnd(r, n), b = rnd(r, n), s(a);
    uint32_t k = r.chance(90) ? r.below(n * 8 + 1) : r.below(2000);
    int how = r.below(3);
    CASE("RegisterBits of %zu bytes, shift %u, kind %d", n, k, how);
    auto mk = [&](B& st) { if (how == 0) { RegisterBits x(n); memcpy(x.data(), st.data(), n); return x; } if (how == 1) return RegisterBits((const uint8_t*)st.data(), n); return RegisterBits(st.data(), n); };
    RegisterBits x = mk(s), y((const uint8_t*)b.data(), n);
    same(x, a, "value"); same(y, b, "value");
    OP("<<"); same(x << k, shl(a, k), "shift left"); OP(">>"); same(x >> k, shr(a, k), "shift right");
    same(x | y, bw(a, b, 1), "or"); same(x & y, bw(a, b, 0), "and"); same(~x, bw(a, b, 2), "not"); same(x, a, "operand unchanged"); same(y, b, "operand unchanged");
    CHECKEQ(x == y, a == b, "equality");
    { RegisterBits c(x); same(c, a, "copy"); c |= y; same(c, bw(a, b, 1), "or in place"); same(x, a, "copy is independent"); same(y, b, "operand unchanged"); }
    { RegisterBits c(x); OP("<<="); c <<= k; same(c, shl(a, k), "shift left in place"); RegisterBits d(std::move(c)); same(d, shl(a, k), "move"); }
    if (n >= 4) { uint32_t v = r.next(); RegisterBits c(n, v); B e(n); memcpy(e.data(), &v, 4); same(c, e, "construction from a value"); RegisterBits d(x); d.set(v); B g(a); memcpy(g.data(), &v, 4); same(d, g, "set"); }
    if (how != 2) { uint8_t f = r.next(); x.fill(f); same(x, B(n, f), "fill"); CHECK(s == a, "constant source unchanged"); }
}
template <class T> static void swp(Rng& r) { T v = T(r.weird()); CASE("byte_swap of %llx (%zu bytes)", (unsigned long long)v, sizeof v); T w = byte_swap<T>(v); uint8_t p[8], q[8]; memcpy(p, &v, sizeof v); memcpy(q, &w, sizeof w); for (size_t i = 0; i < sizeof v; ++i) CHECKEQ(q[i], p[sizeof v - 1 - i], "byte_swap"); CHECK((reorder<T, BE>(v)) == w && (reorder<T, LE>(v)) == v, "reorder"); }
void oracle(Rng& r, unsigned scale) {
    for (unsigned i = 0; i < 80000 * scale; ++i) {
        bitarray(r); regbits(r);
        swp<uint8_t>(r); swp<int8_t>(r); swp<uint16_t>(r); swp<int16_t>(r); swp<uint32_t>(r); swp<int32_t>(r); swp<uint64_t>(r); swp<int64_t>(r);
        uint64_t x = r.weird(); CHECKEQ(utils::count_1_bits(x), __builtin_popcountll(x), "count_1_bits"); uint32_t y = x; CHECKEQ(utils::count_1_bits(y), __builtin_popcount(y), "count_1_bits");
    }
}

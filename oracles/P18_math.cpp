// PROPERTY: P18
#include <exception>
#include <limits>
#include <numeric>
#include "sparta/utils/MathUtils.hpp"
#include "sparta/utils/Utils.hpp"
#include <sstream>
#include <cassert>
#include "sparta/utils/Rational.hpp"
#include "oracle.h"
using namespace sparta;
typedef unsigned __int128 W;
template <class T> static T gcdRef(T a, T b) { while (b) { T t = a % b; a = b; b = t; } return a; }
template <class T> static T pick(Rng& r) { return T(r.weird(sizeof(T) * 8)); }
template <class T> static void integers(Rng& r) {
    T u = pick<T>(r), v = r.chance(30) ? T(u * r.below(20)) : pick<T>(r);
    if (r.chance(30)) { T k = 1 + r.below(200); u = u / k * k; v = v / k * k; }
    CASE("u=%llu v=%llu (%u bits)", (unsigned long long)u, (unsigned long long)v, unsigned(sizeof(T) * 8));
    OP("gcd"); T g = gcdRef(u, v);
    CHECKEQ(utils::gcd<T>(u, v), g, "gcd");
    W m = g ? W(u / g) * v : 0;
    OP("lcm"); if (m <= std::numeric_limits<T>::max()) CHECKEQ(utils::lcm<T>(u, v), T(m), "lcm");
    if (u) {
        unsigned lo = 0, hi = 0;
        while (!((u >> lo) & 1)) ++lo;
        for (unsigned i = 0; i < sizeof(T) * 8; ++i) if ((u >> i) & 1) hi = i;
        OP("logs");
        CHECKEQ(utils::log2_lsb<T>(u), lo, "log2_lsb"); CHECKEQ(utils::floor_log2<T>(u), hi, "floor_log2");
        CHECKEQ(utils::ceil_log2(u), hi + ((u & (u - 1)) ? 1 : 0), "ceil_log2");
        uint8_t b = u; uint16_t h = u;
        unsigned hb = 0, hh = 0;
        for (unsigned i = 0; i < 16; ++i) { if (i < 8 && (b >> i) & 1) hb = i; if ((h >> i) & 1) hh = i; }
        if (b) CHECKEQ(utils::floor_log2<uint8_t>(b), hb, "floor_log2 8 bits");
        if (h) CHECKEQ(utils::floor_log2<uint16_t>(h), hh, "floor_log2 16 bits");
    }
    bool p2 = u && gcdRef<W>(W(1) << 64, u) == u;
    OP("power of two"); CHECKEQ(utils::is_power_of_2(u), p2, "is_power_of_2"); CHECKEQ(isPowerOf2(u), p2 || u == 0, "isPowerOf2");
    if (uint64_t(u) <= 1ull << 63) { uint64_t n = 1; while (n < u) n *= 2; CHECKEQ(utils::next_power_of_2(u), n, "next_power_of_2"); }
    unsigned k = r.below(65);
    CHECKEQ(utils::ones(k), uint64_t((W(1) << k) - 1), "ones"); if (k < 64) CHECKEQ(utils::pow2(k), uint64_t(W(1) << k), "pow2");
    // masks
    T lsb = 0;
    OP("computeMask");
    if (p2 || u == 0) { T mk = computeMask<T>(u, lsb); CHECKEQ(T(v & mk), u ? T(v / u * u) : T(0), "computeMask rounds down to a multiple"); CHECKEQ(W(1) << lsb, u ? W(u) : W(1) << (sizeof(T) * 8), "computeMask position"); CHECKEQ(computeMaskShift<T>(u), lsb, "computeMaskShift"); }
    else if (r.chance(1)) CHECK(throws([&] { computeMask<T>(u, lsb); }), "computeMask of a size that is no power of two must be rejected");
    // power
    T n = r.chance(70) ? T(r.below(70)) : T(pick<T>(r) >> r.below(sizeof(T) * 8)), e = r.below(70);
    W p = 1; bool ov = false;
    for (T i = 0; i < e && !ov; ++i) { p *= n; ov = p > std::numeric_limits<T>::max(); }
    OP("safe_power(%llu, %llu)", (unsigned long long)n, (unsigned long long)e);
    if (!ov) CHECKEQ(utils::safe_power<T>(n, e), T(p), "safe_power");
    else if (r.chance(3)) CHECK(throws([&] { utils::safe_power<T>(n, e); }), "safe_power beyond the representable range must be rejected");
}
template <class T> static void rationals(Rng& r) {
    typedef utils::Rational<T> R;
    auto part = [&] { return T(r.chance(60) ? r.below(60) : r.chance(50) ? r.next() >> (64 - sizeof(T) * 4) : r.next() >> (64 - sizeof(T) * 8) >> r.below(sizeof(T) * 8)); };
    T a = part(), b = part() | (r.chance(50) ? 1 : 0), c = part(), d = r.chance(20) ? b : part();
    if (!b) b = 1; if (!d) d = 3;
    CASE("x=%llu/%llu y=%llu/%llu (%u bits)", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d, unsigned(sizeof(T) * 8));
    const W mx = std::numeric_limits<T>::max();
    R x(a, b), y(c, d);
    auto is = [&](const R& q, W n, W m, const char* w) { W g = n == 0 ? m : gcdRef<W>(n, m); CHECK(q.getNumerator() == T(n / g) && q.getDenominator() == T(m / g), w); };
    is(x, a, b, "constructed value"); is(y, c, d, "constructed value");
    W xa = x.getNumerator(), xb = x.getDenominator(), yc = y.getNumerator(), yd = y.getDenominator();
    if (xa * yc <= mx && xb * yd <= mx) { OP("*"); is(x * y, xa * yc, xb * yd, "product"); R z(x); z *= y; is(z, xa * yc, xb * yd, "product in place"); }
    if (yc && xa * yd <= mx && xb * yc <= mx) { OP("/"); is(x / y, xa * yd, xb * yc, "quotient"); R z(x); z /= y; is(z, xa * yd, xb * yc, "quotient in place"); }
    W m = xb / gcdRef<W>(xb, yd) * yd, n1 = m <= mx ? xa * (m / xb) : 0, n2 = m <= mx ? yc * (m / yd) : 0;
    if (m <= mx && n1 <= mx && n2 <= mx) {
        OP("-"); W df = n1 > n2 ? n1 - n2 : n2 - n1;
        is(x - y, df, m, "distance"); { R z(x); z -= y; is(z, df, m, "distance in place"); }
        if (n1 + n2 <= mx) { OP("+"); is(x + y, n1 + n2, m, "sum"); R z(x); z += y; is(z, n1 + n2, m, "sum in place"); }
    }
    if (xa) is(x.inv(), xb, xa, "inverse");
    CHECKEQ(x == y, xa == yc && xb == yd, "equality");
    { R z(x), w; w = y; CHECK(z == x && w == y, "copies"); if (xa * xa <= mx && xb * xb <= mx) { z *= z; is(z, xa * xa, xb * xb, "self product"); } }
    if (xa && xa * xb <= mx) { R z(x); z /= z; is(z, 1, 1, "self quotient"); }
    CHECK(double(x) == double(T(xa)) / double(T(xb)), "conversion to double");
    std::string s = xa == 0 ? "0" : xb == 1 ? std::to_string(T(xa)) : std::to_string(T(xa)) + "/" + std::to_string(T(xb));
    CHECK(std::string(x) == s, "text form");
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned i = 0; i < 60000 * scale; ++i) { integers<uint32_t>(r); integers<uint64_t>(r); rationals<uint32_t>(r); rationals<uint64_t>(r); }
    for (unsigned i = 0; i < 64; ++i) { CASE("bit %u", i); CHECKEQ(utils::log2_lsb<uint64_t>(1ull << i), i, "log2_lsb"); CHECKEQ(utils::floor_log2<uint64_t>(1ull << i), i, "floor_log2"); uint64_t l; CHECKEQ(computeMask<uint64_t>(1ull << i, l), ~((1ull << i) - 1), "mask"); }
    for (unsigned i = 0; i < 70; ++i) { CASE("bit %u", i % 64); uint64_t s = 1ull << (i % 64), l; if (i % 64 > 1) { uint64_t bad = s + (r.chance(50) ? 1 : s / 2); CHECK(throws([&] { computeMask<uint64_t>(bad, l); }), "computeMask of a size that is no power of two must be rejected"); } }
}

// PROPERTY: P09
#include <exception>
#include <memory>
#include <map>
#include "oracle.h"
#include "sparta/resources/FrontArray.hpp"
#include <ostream>
static long live = 0;
struct E {
    uint64_t v; uint64_t* self;
    E(uint64_t x = 0) : v(x), self(&v) { ++live; }
    E(const E& o) : v(o.v), self(&v) { CHECK(o.self == &o.v, "datum read outside its lifetime"); ++live; }
    E& operator=(const E& o) { CHECK(self == &v, "datum assigned outside its lifetime"); v = o.v; return *this; }
    ~E() { CHECK(self == &v, "datum destroyed outside its lifetime"); self = nullptr; --live; }
    operator uint64_t() const { return v; }
};
inline std::ostream& operator<<(std::ostream& o, const E& e) { return o << e.v; }
template <class T, sparta::ArrayType AT> void run(Rng& r) {
    using A = sparta::FrontArray<T, AT>;
    constexpr bool aged = AT == sparta::ArrayType::AGED;
    uint32_t cap = r.chance(80) ? r.range(1, 8) : r.range(1, 70);
    unsigned bias = r.range(20, 80);
    live = 0;
    CASE("%s FrontArray a(capacity=%u)", aged ? "aged" : "normal", cap);
    {
        A a("a", cap, nullptr); const A& ca = a;
        std::map<uint32_t, std::pair<uint64_t, uint64_t>> m;     // slot -> datum, time written
        uint64_t t = 0;
        for (unsigned s = 0; s < 100; ++s) {
            unsigned k = r.below(100);
            uint32_t i = r.below(cap); uint64_t v = r.next(); T e(v);
            if (k < bias) {
                unsigned how = r.below(6);
                if (how < 4) {
                    if (m.count(i) && how < 3) { while (m.count(i) && m.size() < cap) i = (i + 1) % cap; if (m.count(i)) continue; }
                    if (m.count(i) && std::is_same<T, E>::value) continue;      // element lifetimes of overwritten data are not observed
                    OP("write(%u, %llu) form %u", i, (unsigned long long)v, how);
                    if (how == 0) a.write(i, e); else if (how == 1) a.write(i, T(v)); else if (how == 2) { auto it = a.getCircularIterator(i); a.write(it, e); } else a.write(i, e);
                    m[i] = {v, ++t};
                } else {
                    bool fr = how == 4, push = r.chance(50), mv = r.chance(50);
                    int32_t want = -1;
                    if (fr) { for (uint32_t x = 0; x < cap && want < 0; ++x) if (!m.count(x)) want = x; } else for (int32_t x = cap - 1; x >= 0 && want < 0; --x) if (!m.count(x)) want = x;
                    OP("%s(%llu)", fr ? "writeFront" : "writeBack", (unsigned long long)v);
                    if (want < 0) { if (r.chance(10)) CHECK(throws([&] { if (fr) a.writeFront(e); else a.writeBack(e); }), "no free slot must be rejected"); continue; }
                    uint32_t got = mv ? (fr ? a.writeFront(T(v)) : a.writeBack(T(v))) : push ? (fr ? a.push_front(e) : a.push_back(e)) : (fr ? a.writeFront(e) : a.writeBack(e));
                    CHECKEQ(got, (uint32_t)want, "slot chosen");
                    m[got] = {v, ++t};
                }
            } else if (k < 97) {
                if (m.count(i)) { OP("erase(%u)", i); if (r.chance(50)) a.erase(i); else { auto it = a.getCircularIterator(i); a.erase(it); } m.erase(i); }
                else if (r.chance(3)) { OP("erase(%u) invalid", i); CHECK(throws([&] { a.erase(i); }), "erasing a free slot must be rejected"); CHECK(throws([&] { a.read(i); }), "reading a free slot must be rejected"); CHECK(throws([&] { a.write(cap + r.below(3), e); }), "writing outside must be rejected"); }
            } else if (k < 98) { OP("clear()"); a.clear(); m.clear(); }
            else if (m.count(i)) { OP("access(%u)", i); a.access(i) = e; m[i].first = v; }
            // observe
            CHECKEQ(a.numValid(), m.size(), "numValid"); CHECKEQ(a.size(), m.size(), "size"); CHECKEQ(a.numFree(), cap - m.size(), "numFree"); CHECKEQ(a.capacity(), cap, "capacity");
            std::vector<std::pair<uint64_t, uint32_t>> byage;
            uint32_t nth = 0;
            for (uint32_t x = 0; x < cap; ++x) {
                CHECK(a.isValid(x) == (m.count(x) > 0), "isValid of slot %u", x);
                if (!m.count(x)) continue;
                CHECK(uint64_t(ca.read(x)) == m[x].first, "datum of slot %u", x); CHECKEQ(uint64_t(a.access(x)), m[x].first, "access");
                CHECK(uint64_t(ca.readValid(nth)) == m[x].first, "readValid(%u) is the datum of slot %u", nth, x);
                ++nth; byage.push_back({m[x].second, x});
            }
            std::sort(byage.begin(), byage.end());
            { uint32_t c = 0; for (auto it = a.begin(); it != a.end(); ++it, ++c) { CHECK(c < cap, "index order length"); CHECKEQ(it.getIndex(), c, "index order"); CHECK(it.isValid() == (m.count(c) > 0), "iterator validity"); if (m.count(c)) CHECKEQ(uint64_t(*it), m[c].first, "iterator datum"); } CHECKEQ(c, cap, "index order length"); }
            if constexpr (aged) {
                size_t n = byage.size(), c = 0;
                for (size_t x = 0; x < n; ++x) {
                    CHECK(a.getAge(byage[x].second) == x, "age of slot %u", byage[x].second);
                    CHECKEQ(a.getOldestIndex(x).getIndex(), byage[x].second, "nth oldest"); CHECKEQ(a.getYoungestIndex(x).getIndex(), byage[n - 1 - x].second, "nth youngest");
                    uint32_t p = byage[x].second; bool more = a.getNextOldestIndex(p);
                    CHECK(more == (x + 1 < n), "next oldest exists"); if (more) CHECKEQ(p, byage[x + 1].second, "next oldest");
                    if (x) CHECK(a.isOlder(byage[x - 1].second, byage[x].second) && a.isYounger(byage[x].second, byage[x - 1].second) && !a.isOlder(byage[x].second, byage[x - 1].second), "age comparison");
                }
                for (auto it = a.abegin(); it != a.aend(); ++it, ++c) { CHECK(c < n, "aged iteration length"); CHECKEQ(it.getIndex(), byage[c].second, "aged iteration order"); CHECKEQ(uint64_t(*it), m[byage[c].second].first, "aged iteration datum"); }
                CHECKEQ(c, n, "aged iteration length"); c = 0;
                for (auto it = ca.abegin(); it != ca.aend(); ++it, ++c) { CHECK(c < n, "const aged iteration length"); CHECKEQ(it.getIndex(), byage[c].second, "const aged iteration order"); }
                CHECKEQ(c, n, "const aged iteration length"); c = n;
                for (uint32_t x : a.getAgedList()) CHECKEQ(x, byage[--c].second, "aged list");
            }
            if (std::is_same<T, E>::value) CHECKEQ(live, (long)m.size() + 1, "live data");
        }
    }
    if (std::is_same<T, E>::value) CHECKEQ(live, 0l, "every datum destroyed once");
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned c = 0; c < 500 * scale; ++c) {
        run<E, sparta::ArrayType::AGED>(r); run<E, sparta::ArrayType::NORMAL>(r);
        run<uint64_t, sparta::ArrayType::NORMAL>(r); run<uint64_t, sparta::ArrayType::AGED>(r);
    }
}

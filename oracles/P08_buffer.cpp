// PROPERTY: P08
#include <exception>
#include <memory>
#include "oracle.h"
#include "sparta/resources/Buffer.hpp"
#include <ostream>
static long live = 0;
struct E {
    uint64_t v; uint64_t* self;
    explicit E(uint64_t x) : v(x), self(&v) { ++live; }
    E(const E& o) : v(o.v), self(&v) { CHECK(o.self == &o.v, "element read outside its lifetime"); ++live; }
    E& operator=(const E& o) { v = o.v; return *this; }
    ~E() { CHECK(self == &v, "element destroyed outside its lifetime"); self = nullptr; --live; }
    operator uint64_t() const { return v; }
};
struct P { uint64_t v; explicit P(uint64_t x) : v(x) {} operator uint64_t() const { return v; } };
inline std::ostream& operator<<(std::ostream& o, const E& e) { return o << e.v; }
inline std::ostream& operator<<(std::ostream& o, const P& e) { return o << e.v; }
template <class T> void run(Rng& r, bool infinite) {
    using B = sparta::Buffer<T>;
    uint32_t cap = r.chance(80) ? r.range(1, 7) : r.range(1, 60);
    unsigned bias = r.range(20, 80), delta = r.range(1, 4);
    live = 0;
    CASE("Buffer b(capacity=%u)%s", cap, infinite ? " makeInfinite" : "");
    {
        B b("b", cap, nullptr);
        const B& cb = b;
        if (infinite) { OP("makeInfinite(%u)", delta); b.makeInfinite(delta); }
        struct M { uint64_t id, v; const void* where; };
        std::vector<M> m;
        std::vector<std::pair<typename B::iterator, uint64_t>> its;     // iterator, element id
        uint64_t id = 0;
        auto note = [&](typename B::iterator it, uint64_t i) { if (its.size() < 40) its.push_back({it, i}); };
        for (unsigned s = 0; s < 120; ++s) {
            unsigned k = r.below(100);
            size_t oldcap = b.capacity();
            if (k < bias) {
                uint64_t v = r.next(); T e(v);
                bool full = !infinite && m.size() == cap, mv = r.chance(50), app = r.chance(40);
                uint32_t at = app ? m.size() : r.below(m.size() + 1);
                bool viaIt = !app && at < m.size() && r.chance(50);
                if (r.chance(2)) { OP("insert(%zu beyond end)", m.size() + 1); CHECK(throws([&] { b.insert(m.size() + 1, e); }), "inserting beyond the end must be rejected"); }
                OP("%s(%u, %llu)", app ? "push_back" : viaIt ? "insert(iterator)" : "insert", at, (unsigned long long)v);
                if (full) { if (r.chance(20)) CHECK(throws([&] { if (app) b.push_back(e); else b.insert(at, e); }), "adding to a full buffer must be rejected"); }
                else {
                    typename B::iterator it;
                    if (app) it = mv ? b.push_back(T(v)) : b.push_back(e);
                    else if (viaIt) { auto p = b.begin(); for (uint32_t j = 0; j < at; ++j) ++p; it = mv ? b.insert(p, T(v)) : b.insert(p, e); }
                    else it = mv ? b.insert(at, T(v)) : b.insert(at, e);
                    m.insert(m.begin() + at, {++id, v, nullptr});
                    if (b.capacity() != oldcap) { CHECK(infinite, "capacity is fixed"); CHECK(b.capacity() >= oldcap + delta, "growth by at least the requested amount"); its.clear(); }
                    CHECK(it.isValid() && uint64_t(*it) == v, "returned iterator denotes the new element");
                    note(it, id);
                }
            } else if (k < 92) {
                if (m.empty()) { if (r.chance(10)) { OP("erase on empty"); CHECK(throws([&] { b.erase(0u); }), "erasing a position beyond the end must be rejected"); } }
                else {
                    uint32_t at = r.below(m.size());
                    unsigned how = r.below(3);
                    OP("erase(%u) %s", at, how == 0 ? "index" : how == 1 ? "iterator" : "reverse iterator");
                    if (how == 0) b.erase(at);
                    else if (how == 1) { auto p = b.begin(); for (uint32_t j = 0; j < at; ++j) ++p; auto n = b.erase(p); if (at + 1 < m.size()) CHECK(n.isValid() && uint64_t(*n) == m[at + 1].v, "erase returns the next element"); else CHECK(n == b.end(), "erase of the last element returns end"); }
                    else { auto p = b.rbegin(); for (uint32_t j = 0; j + 1 < m.size() - at; ++j) ++p; CHECKEQ(uint64_t(*p), m[at].v, "reverse iteration"); b.erase(p); }
                    uint64_t gone = m[at].id;
                    m.erase(m.begin() + at);
                    for (auto& p : its) if (p.second == gone) CHECK(!p.first.isValid(), "iterator to an erased element must become invalid");
                    for (size_t i = its.size(); i-- > 0;) if (its[i].second == gone) its.erase(its.begin() + i);   // storage may be reused later
                }
            } else if (k < 93) { OP("clear()"); b.clear(); for (auto& p : its) CHECK(!p.first.isValid(), "iterator valid after clear"); its.clear(); m.clear(); }
            else if (m.size()) { uint32_t i = r.below(m.size()); uint64_t v = r.next(); OP("access(%u)=%llu", i, (unsigned long long)v); b.access(i).v = v; m[i].v = v; }
            // observe
            CHECKEQ(b.size(), m.size(), "size"); CHECKEQ(b.empty(), m.empty(), "empty"); CHECKEQ(b.numFree(), b.capacity() - m.size(), "numFree");
            if (!infinite) CHECKEQ(b.capacity(), cap, "capacity");
            for (uint32_t i = 0; i < m.size() + 2; ++i) { CHECKEQ(b.isValid(i), i < m.size(), "isValid"); if (i < m.size()) { CHECKEQ(uint64_t(cb.read(i)), m[i].v, "read"); CHECKEQ(uint64_t(b.access(i)), m[i].v, "access"); } else if (r.chance(2)) CHECK(throws([&] { b.read(i); }), "read out of range must be rejected"); }
            if (m.size()) CHECKEQ(uint64_t(b.accessBack()), m.back().v, "accessBack");
            size_t i = 0;
            for (auto it = b.begin(); it != b.end(); ++it, ++i) { CHECK(i < m.size(), "iteration length"); CHECK(it.isValid(), "iterating iterator valid"); CHECKEQ(uint64_t(*it), m[i].v, "iteration order"); CHECKEQ(uint64_t(b.read(it)), m[i].v, "read by iterator"); }
            CHECKEQ(i, m.size(), "iteration length");
            i = 0;
            for (auto it = cb.begin(); it != cb.end(); it++, ++i) { CHECK(i < m.size(), "const iteration length"); CHECKEQ(uint64_t(*it), m[i].v, "const iteration order"); }
            i = m.size();
            for (auto it = b.rbegin(); it != b.rend() && i; ++it) { --i; CHECKEQ(uint64_t(*it), m[i].v, "reverse iteration order"); CHECKEQ(uint64_t(b.read(it)), m[i].v, "read by reverse iterator"); }
            CHECKEQ(i, 0, "reverse iteration length");
            for (auto& p : its) {
                size_t j = 0; while (j < m.size() && m[j].id != p.second) ++j;
                CHECK(j < m.size(), "model");
                CHECK(p.first.isValid(), "iterator to a present element must stay valid");
                CHECKEQ(uint64_t(*p.first), m[j].v, "iterator value"); CHECKEQ(uint64_t(b.access(p.first)), m[j].v, "access by iterator");
                auto q = p.first; ++q; if (j + 1 < m.size()) CHECKEQ(uint64_t(*q), m[j + 1].v, "successor of a held iterator"); else CHECK(q == b.end(), "successor of the last");
            }
            for (size_t x = 0; x + 1 < its.size() && x < 5; ++x) {
                size_t ja = 0, jb = 0; while (m[ja].id != its[x].second) ++ja; while (m[jb].id != its[x + 1].second) ++jb;
                CHECKEQ(its[x].first < its[x + 1].first, ja < jb, "iterator order"); CHECKEQ(its[x].first > its[x + 1].first, ja > jb, "iterator order"); CHECKEQ(its[x].first == its[x + 1].first, ja == jb, "iterator equality");
            }
            if (sizeof(T) == sizeof(E)) CHECKEQ(live, (long)m.size(), "live element count");
        }
    }
    CHECKEQ(live, 0, "elements destroyed with the buffer");
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned c = 0; c < 1500 * scale; ++c) { run<E>(r, false); run<P>(r, r.chance(70)); }
}

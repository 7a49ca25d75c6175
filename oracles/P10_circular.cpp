// PROPERTY: P10
#include <exception>
#include <memory>
#include <deque>
#include "oracle.h"
#include "sparta/resources/CircularBuffer.hpp"
#include <ostream>
static long live = 0;
struct E {
    uint64_t v = 0; uint64_t* self;
    E() : self(&v) { ++live; }
    explicit E(uint64_t x) : v(x), self(&v) { ++live; }
    E(const E& o) : v(o.v), self(&v) { CHECK(o.self == &o.v, "element read outside its lifetime"); ++live; }
    E& operator=(const E& o) { v = o.v; return *this; }
    ~E() { CHECK(self == &v, "element destroyed outside its lifetime"); self = nullptr; --live; }
};
inline std::ostream& operator<<(std::ostream& o, const E& e) { return o << e.v; }
using C = sparta::CircularBuffer<E>;
void oracle(Rng& r, unsigned scale) {
    for (unsigned c = 0; c < 2500 * scale; ++c) {
        uint32_t cap = r.chance(80) ? r.range(1, 7) : r.range(1, 50);
        unsigned bias = r.range(30, 90);
        live = 0;
        CASE("CircularBuffer<E> b(capacity=%u)", cap);
        {
            C b("b", cap, nullptr);
            const C& cb = b;
            struct M { uint64_t id, v; };
            std::deque<M> m;
            std::vector<std::pair<C::iterator, uint64_t>> its;      // id 0: iterator that must be invalid for good
            uint64_t id = 0;
            auto retire = [&] { for (auto& p : its) p.second = 0; };
            for (unsigned s = 0; s < 120; ++s) {
                unsigned k = r.below(100);
                if (k < bias) {
                    uint64_t v = r.next(); OP("push_back(%llu)", (unsigned long long)v);
                    E e(v);
                    if (r.chance(50)) b.push_back(E(v)); else b.push_back(e);
                    m.push_back({++id, v});
                    if (m.size() > cap) m.pop_front();
                } else if (k < bias + (100 - bias) / 3 && m.size()) {
                    uint32_t at = r.below(m.size()); uint64_t v = r.next(); E e(v);
                    auto p = b.begin(); for (uint32_t j = 0; j < at; ++j) ++p;
                    OP("insert(begin+%u, %llu)", at, (unsigned long long)v);
                    if (m.size() == cap) { if (r.chance(10)) CHECK(throws([&] { b.insert(p, e); }), "insert on a full buffer must be rejected"); }
                    else {
                        C::iterator it; unsigned w = r.below(3);
                        if (w == 0) it = b.insert(p, e); else if (w == 1) it = b.insert(p, E(v)); else it = b.insert(C::const_iterator(p), e);
                        m.insert(m.begin() + at, {++id, v}); retire();
                        CHECK(it.isValid() && (*it).v == v, "returned iterator denotes the new element");
                        its.push_back({it, id});
                    }
                } else if (k < bias + 2 * (100 - bias) / 3) {
                    if (m.empty()) { if (r.chance(10)) { OP("erase(end)"); CHECK(throws([&] { b.erase(b.end()); }), "erasing end must be rejected"); } }
                    else {
                        uint32_t at = r.below(m.size());
                        if (r.chance(60)) { OP("erase(begin+%u)", at); auto p = b.begin(); for (uint32_t j = 0; j < at; ++j) ++p; b.erase(p); }
                        else { OP("erase(reverse, position %u)", at); auto p = b.rbegin(); for (uint32_t j = 0; j + 1 < m.size() - at; ++j) ++p; b.erase(p); }
                        m.erase(m.begin() + at); retire();
                    }
                } else if (k < 97) {
                    if (m.size() && its.size() < 40) { uint32_t i = r.below(m.size()); auto it = b.begin(); for (uint32_t j = 0; j < i; ++j) ++it; its.push_back({it, m[i].id}); }
                    else if (its.size()) its.erase(its.begin() + r.below(its.size()));
                } else if (k < 98) { OP("clear()"); b.clear(); m.clear(); retire(); }
                else if (m.size()) { uint32_t i = r.below(m.size()); auto it = b.begin(); for (uint32_t j = 0; j < i; ++j) ++it; uint64_t v = r.next(); OP("*(begin+%u)=%llu", i, (unsigned long long)v); it->v = v; m[i].v = v; }
                CHECKEQ(b.size(), m.size(), "size"); CHECKEQ(b.capacity(), cap, "capacity"); CHECKEQ(b.numFree(), cap - m.size(), "numFree");
                for (uint32_t i = 0; i < m.size() + 2; ++i) { CHECKEQ(b.isValid(i), i < m.size(), "isValid"); if (i < m.size()) { if (r.chance(20)) CHECKEQ(b[i].v, m[i].v, "operator[]"); } else if (r.chance(1)) CHECK(throws([&] { b[i]; }), "index out of range must be rejected"); }
                size_t i = 0;
                for (auto it = b.begin(); it != b.end(); ++it, ++i) { CHECK(i < m.size(), "iteration length"); CHECK(it.isValid(), "iterating iterator valid"); CHECKEQ((*it).v, m[i].v, "iteration order"); }
                CHECKEQ(i, m.size(), "iteration length");
                i = 0;
                for (auto it = cb.begin(); it != cb.end(); it++, ++i) { CHECK(i < m.size(), "const iteration length"); CHECKEQ((*it).v, m[i].v, "const iteration order"); }
                CHECKEQ(i, m.size(), "const iteration length");
                i = m.size();
                for (auto it = b.rbegin(); it != b.rend() && i; ++it) { --i; CHECK(it.isValid(), "reverse iterator valid"); CHECKEQ((*it).v, m[i].v, "reverse iteration order"); }
                CHECKEQ(i, 0, "reverse iteration length");
                CHECK(!b.end().isValid(), "end is not valid");
                for (auto& p : its) {
                    size_t j = 0; while (j < m.size() && m[j].id != p.second) ++j;
                    bool present = p.second && j < m.size();
                    CHECKEQ(p.first.isValid(), present, "iterator validity");
                    if (present) { CHECKEQ((*p.first).v, m[j].v, "iterator value"); }
                    else { p.second = 0; if (r.chance(2)) CHECK(throws([&] { *p.first; }), "dereferencing an invalid iterator must be rejected"); }
                }
                CHECKEQ(live, (long)m.size(), "live element count");
            }
        }
        CHECKEQ(live, 0, "elements destroyed with the buffer");
    }
}

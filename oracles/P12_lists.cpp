// PROPERTY: P12
#include <exception>
#include <list>
#include <memory>
#include "oracle.h"
#include "sparta/resources/PriorityQueue.hpp"
#include <ostream>
static long live = 0;
struct E {
    uint64_t v; uint64_t* self;
    E() : E(0) {}
    explicit E(uint64_t x) : v(x), self(&v) { ++live; }
    E(const E& o) : v(o.v), self(&v) { CHECK(o.self == &o.v, "element read outside its lifetime"); ++live; }
    E& operator=(const E& o) { v = o.v; return *this; }
    ~E() { CHECK(self == &v, "element destroyed outside its lifetime"); self = nullptr; --live; }
    operator uint64_t() const { return v; }
    bool operator==(const E& o) const { return v == o.v; }
};
// ordered by the low byte only: equal elements stay distinguishable
struct Less { bool operator()(const E& a, const E& b) const { return (a.v & 0xff) < (b.v & 0xff); } };
struct Gtr { bool operator()(const E& a, const E& b) const { return (a.v & 0xff) > (b.v & 0xff); } };
static void fastlist(Rng& r) {
    using L = sparta::utils::FastList<E>;
    uint32_t cap = r.chance(80) ? r.range(1, 6) : r.range(1, 40);
    unsigned bias = r.range(30, 80);
    live = 0;
    CASE("FastList l(%u)", cap);
    {
        L l(cap);
        const L& cl = l;
        struct M { uint64_t v; typename L::iterator it; };
        std::vector<M> m;
        for (unsigned s = 0; s < 80; ++s) {
            unsigned k = r.below(100);
            uint64_t v = r.next();
            if (k < bias) {
                unsigned how = r.below(4);
                size_t at = how == 0 ? 0 : how == 1 ? m.size() : r.below(m.size() + 1);
                OP("%s at %zu value %llu", how == 0 ? "emplace_front" : how == 1 ? "emplace_back" : how == 2 ? "emplace" : "insert", at, (unsigned long long)v);
                auto pos = at < m.size() ? m[at].it : l.end();
                auto go = [&] { return how == 0 ? l.emplace_front(v) : how == 1 ? l.emplace_back(v) : how == 2 ? l.emplace(pos, v) : l.insert(pos, E(v)); };
                if (m.size() == cap) { if (r.chance(10)) CHECK(throws(go), "adding to a full list must be rejected"); }
                else { auto it = go(); CHECK(it.isValid() && (*it).v == v && it->v == v, "returned iterator denotes the new element"); m.insert(m.begin() + at, M{v, it}); }
            } else if (k < 95) {
                unsigned how = r.below(3);
                if (m.empty()) { if (r.chance(10)) CHECK(throws([&] { if (how) l.pop_back(); else l.pop_front(); }), "removing from an empty list must be rejected"); }
                else {
                    size_t at = how == 0 ? 0 : how == 1 ? m.size() - 1 : r.below(m.size());
                    OP("%s at %zu", how == 0 ? "pop_front" : how == 1 ? "pop_back" : "erase", at);
                    if (how == 0) l.pop_front(); else if (how == 1) l.pop_back();
                    else { auto n = l.erase(m[at].it); if (at + 1 < m.size()) CHECK(n == m[at + 1].it, "erase returns the next element"); else CHECK(n == l.end(), "erase of the last element returns end"); }
                    m.erase(m.begin() + at);
                }
            } else if (k < 97) { OP("clear"); l.clear(); m.clear(); }
            CHECKEQ(l.size(), m.size(), "size"); CHECKEQ(l.empty(), m.empty(), "empty"); CHECKEQ(l.max_size(), cap, "max_size"); CHECKEQ(live, (long)m.size(), "live element count");
            if (m.size()) { CHECKEQ(l.front().v, m[0].v, "front"); CHECKEQ(cl.front().v, m[0].v, "front"); }
            size_t i = 0;
            for (auto it = l.begin(); it != l.end(); ++it, ++i) { CHECK(i < m.size(), "iteration length"); CHECKEQ((*it).v, m[i].v, "iteration order"); CHECK(it == m[i].it, "held iterator denotes its element"); CHECKEQ((*m[i].it).v, m[i].v, "held iterator value"); }
            CHECKEQ(i, m.size(), "iteration length");
            i = 0;
            for (auto it = cl.begin(); it != cl.end(); ++it, ++i) { CHECK(i < m.size(), "iteration length"); CHECKEQ(it->v, m[i].v, "iteration order"); }
            CHECKEQ(i, m.size(), "iteration length");
        }
    }
    CHECKEQ(live, 0, "elements destroyed with the list");
}
template <class Q> struct Rem { static void go(Q& q, const E& e) { q.remove(e); } };
template <class Q, class C, size_t B> void prio(Rng& r) {
    unsigned bias = r.range(30, 80), span = r.chance(50) ? 4 : 256;
    live = 0;
    CASE("PriorityQueue bound=%zu", B);
    {
        Q q;
        C lt;
        std::vector<E> m;
        for (unsigned s = 0; s < 60; ++s) {
            unsigned k = r.below(100);
            uint64_t v = (r.next() & ~0xffull) | r.below(span);
            if (k < bias) {
                bool front = r.chance(10);
                OP("%s(%llx)", front ? "forceFront" : "insert", (unsigned long long)v);
                if (B && m.size() == B) { if (r.chance(5)) CHECK(throws([&] { if (front) q.forceFront(E(v)); else q.insert(E(v)); }), "adding to a full queue must be rejected"); }
                else {
                    size_t at = 0;
                    if (!front) while (at < m.size() && !lt(E(v), m[at])) ++at;
                    if (front) q.forceFront(E(v)); else q.insert(E(v));
                    m.insert(m.begin() + at, E(v));
                }
            } else if (k < 85) {
                OP("pop");
                if (m.empty()) { if (r.chance(5)) { CHECK(throws([&] { q.pop(); }), "pop from empty must be rejected"); CHECK(throws([&] { q.top(); }), "top of empty must be rejected"); } }
                else { q.pop(); m.erase(m.begin()); }
            } else if (k < 97) {
                if (m.size()) {
                    size_t at = r.below(m.size());
                    if constexpr (B == 0) {
                        if (r.chance(40)) {
                            E e = m[at];
                            OP("remove(%llx)", (unsigned long long)e.v);
                            q.remove(e);
                            for (size_t j = m.size(); j-- > 0;) if (m[j] == e) m.erase(m.begin() + j);
                            goto done;
                        }
                    }
                    OP("erase position %zu", at);
                    auto it = q.begin(); for (size_t j = 0; j < at; ++j) ++it;
                    q.erase(it); m.erase(m.begin() + at);
                }
            } else if (k < 98) { OP("clear"); q.clear(); m.clear(); }
        done:
            CHECKEQ(q.size(), m.size(), "size"); CHECKEQ(q.empty(), m.empty(), "empty"); CHECKEQ(live, (long)(2 * m.size()), "live element count");
            if (m.size()) CHECKEQ(q.top().v, m[0].v, "top");
            if constexpr (B == 0) if (m.size()) CHECKEQ(q.back().v, m.back().v, "back");
            size_t i = 0;
            for (auto it = q.begin(); it != q.end(); ++it, ++i) { CHECK(i < m.size(), "iteration length"); CHECKEQ((*it).v, m[i].v, "queue order"); }
            CHECKEQ(i, m.size(), "iteration length");
        }
    }
    CHECKEQ(live, 0, "elements destroyed with the queue");
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned c = 0; c < 1500 * scale; ++c) {
        fastlist(r);
        prio<sparta::PriorityQueue<E, Less>, Less, 0>(r);
        prio<sparta::PriorityQueue<E, Gtr, 5>, Gtr, 5>(r);
        prio<sparta::PriorityQueue<E, Less, 1>, Less, 1>(r);
    }
}

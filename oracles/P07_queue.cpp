// PROPERTY: P07
#include <exception>
#include <deque>
#include <memory>
#include "oracle.h"
#include "sparta/resources/Queue.hpp"
// element type that checks its own lifetime
static long live = 0;
struct E {
    uint64_t v; uint64_t* self;
    explicit E(uint64_t x) : v(x), self(&v) { ++live; }
    E(const E& o) : v(o.v), self(&v) { CHECK(o.self == &o.v, "element read outside its lifetime"); ++live; }
    E& operator=(const E& o) { v = o.v; return *this; }
    ~E() { CHECK(self == &v, "element destroyed outside its lifetime"); self = nullptr; --live; }
};
#include <ostream>
inline std::ostream& operator<<(std::ostream& o, const E& e) { return o << e.v; }
using Q = sparta::Queue<E>;
void oracle(Rng& r, unsigned scale) {
    for (unsigned c = 0; c < 2500 * scale; ++c) {
        uint32_t cap = r.chance(80) ? r.range(1, 9) : r.range(1, 70);
        unsigned bias = r.range(20, 80);
        live = 0;
        CASE("Queue<E> q(capacity=%u)", cap);
        {
        Q q("q", cap, nullptr);
        const Q& cq = q;
        std::deque<std::pair<uint64_t, uint64_t>> m;     // (id, value)
        std::vector<std::pair<Q::iterator, uint64_t>> its;
        uint64_t id = 0;
        for (unsigned s = 0; s < 150; ++s) {
            unsigned k = r.below(100);
            if (k < bias / 2 + 15) {
                uint64_t v = r.next();
                OP("push(%llu)", (unsigned long long)v);
                E e(v);
                bool mv = r.chance(50);
                if (m.size() == cap) CHECK(throws([&] { q.push(e); }), "push on a full queue must be rejected");
                else { auto it = mv ? q.push(E(v)) : q.push(e); m.push_back({++id, v}); CHECK(it.isValid() && it->v == v, "iterator returned by push"); if (its.size() < 40) its.push_back({it, id}); }
            } else if (k < 55) { OP("pop()"); if (m.empty()) CHECK(throws([&] { q.pop(); }), "pop on empty must be rejected"); else { CHECKEQ(q.front().v, m.front().second, "front"); q.pop(); m.pop_front(); } }
            else if (k < 65) { OP("pop_back()"); if (m.empty()) CHECK(throws([&] { q.pop_back(); }), "pop_back on empty must be rejected"); else { CHECKEQ(q.back().v, m.back().second, "back"); q.pop_back(); m.pop_back(); } }
            else if (k < 67) { OP("clear()"); q.clear(); m.clear(); }
            else if (k < 72 && its.size()) { its.erase(its.begin() + r.below(its.size())); }
            else if (k < 75 && m.size()) { uint32_t i = r.below(m.size()); uint64_t v = r.next(); OP("access(%u)=%llu", i, (unsigned long long)v); q.access(i).v = v; m[i].second = v; }
            else if (k < 78 && m.size() && its.size() < 40) { uint32_t i = r.below(m.size()); auto it = q.begin(); for (uint32_t j = 0; j < i; ++j) ++it; its.push_back({it, m[i].first}); }
            // observe everything
            CHECKEQ(q.size(), m.size(), "size"); CHECKEQ(q.empty(), m.empty(), "empty"); CHECKEQ(q.numFree(), cap - m.size(), "numFree"); CHECKEQ(q.capacity(), cap, "capacity");
            for (uint32_t i = 0; i < cap + 2; ++i) { CHECKEQ(q.isValid(i), i < m.size(), "isValid"); if (i < m.size()) { CHECKEQ(cq.read(i).v, m[i].second, "read"); CHECKEQ(q.access(i).v, m[i].second, "access"); } else if (r.chance(2)) CHECK(throws([&] { q.read(i); }), "read out of range must be rejected"); }
            if (m.size()) { CHECKEQ(q.front().v, m.front().second, "front"); CHECKEQ(q.back().v, m.back().second, "back"); }
            size_t i = 0;
            for (auto it = q.begin(); it != q.end(); ++it, ++i) { CHECK(i < m.size(), "iteration length"); CHECK(it.isValid(), "iterating iterator valid"); CHECKEQ(it->v, m[i].second, "iteration order"); CHECKEQ(it.getIndex(), i, "iterator index"); }
            CHECKEQ(i, m.size(), "iteration length");
            i = 0;
            for (auto it = cq.begin(); it != cq.end(); it++, ++i) CHECKEQ((*it).v, m[i].second, "const iteration order");
            CHECKEQ(i, m.size(), "iteration length");
            if (m.size()) { auto it = q.end(); for (size_t j = m.size(); j-- > 0;) { --it; CHECKEQ(it->v, m[j].second, "backward iteration"); } CHECK(it == q.begin(), "backward iteration reaches begin"); }
            for (auto& p : its) {
                bool present = false; uint64_t v = 0; size_t ix = 0;
                for (size_t j = 0; j < m.size(); ++j) if (m[j].first == p.second) { present = true; v = m[j].second; ix = j; }
                CHECKEQ(p.first.isValid(), present, "iterator validity");
                if (present) { CHECKEQ((*p.first).v, v, "iterator value"); CHECKEQ(p.first.getIndex(), ix, "iterator position"); }
                else if (r.chance(2)) CHECK(throws([&] { *p.first; }), "dereferencing an invalid iterator must be rejected");
            }
            CHECKEQ(live, (long)m.size(), "live element count");
        }
        }
        CHECKEQ(live, 0, "elements destroyed with the queue");
    }
}

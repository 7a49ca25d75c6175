// PROPERTY: P14
// FLAGS: -O1 -fsanitize=address
#include <exception>
#include <vector>
#include <memory>
#include <cstddef>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include "sparta/utils/SpartaSharedPointer.hpp"
#include "sparta/utils/SpartaSharedPointerAllocator.hpp"
#include "oracle.h"
using namespace sparta;
static std::map<const void*, uint64_t> alive;      // storage -> id
static std::multiset<uint64_t> died;
struct Base { virtual ~Base() {} uint64_t id = 0; };
struct O : Base {
    SpartaSharedPointer<O> next;
    explicit O(uint64_t i) { id = i; CHECK(!alive.count(this), "storage in use handed out"); for (auto& a : alive) { const char* p = (const char*)a.first; CHECK((const char*)this >= p + sizeof(O) || p >= (const char*)this + sizeof(O), "storage in use handed out"); } alive[this] = i; }
    O(uint64_t i, SpartaSharedPointerAllocator<O>& a) : O(i) { if (i & 1) next = allocate_sparta_shared_pointer<O>(a, i + 1000000); }
    ~O() { CHECK(alive.count(this) && alive[this] == id, "object destroyed twice"); alive.erase(this); died.insert(id); }
};
struct R { uint64_t id; std::shared_ptr<R> next; explicit R(uint64_t i) : id(i) {} };   // reference
static void run(Rng& r, bool pool) {
    const size_t cap = r.range(1, 12);
    SpartaSharedPointerAllocator<O> al(cap, r.below(cap + 1));
    al.registerCustomWaterMarkCallback([](const SpartaSharedPointerAllocator<O>&) {});
    alive.clear(); died.clear();
    const int N = 6;
    {
    SpartaSharedPointer<O> s[N]; std::shared_ptr<R> t[N];
    SpartaWeakPointer<O> w[N]; std::weak_ptr<R> v[N];
    std::map<uint64_t, std::weak_ptr<R>> all; uint64_t id = 2;
    for (unsigned k = 0; k < 120; ++k) {
        int i = r.below(N), j = r.below(N);
        switch (r.below(17)) {
        case 0: case 1: case 2: {
            id += 2; bool nest = pool && r.chance(15); uint64_t me = id | nest;
            if (pool) {
                size_t used = alive.size();
                // blocks still observed are not free either: count what the model knows to be unavailable
                bool thrown = false;
                OP("s%d = allocate(%llu)%s", i, (unsigned long long)me, nest ? " nested" : "");
                if (used + 1 + nest > cap) { if (r.chance(5)) { thrown = throws([&] { s[i] = nest ? allocate_sparta_shared_pointer<O>(al, me, al) : allocate_sparta_shared_pointer<O>(al, me); }); CHECK(thrown, "allocation beyond the pool"); } if (nest && thrown) return; break; }
                size_t un = al.getNumAllocated() - al.getNumFree(), obs = un - used;
                if (used + obs + 1 + nest > cap) break;
                s[i] = nest ? allocate_sparta_shared_pointer<O>(al, me, al) : allocate_sparta_shared_pointer<O>(al, me);
            } else { OP("s%d.reset(new %llu)", i, (unsigned long long)me); if (r.chance(50)) s[i].reset(new O(me)); else s[i] = SpartaSharedPointer<O>(new O(me)); }
            t[i] = std::make_shared<R>(me); if (nest) { t[i]->next = std::make_shared<R>(me + 1000000); all[me + 1000000] = t[i]->next; }
            all[me] = t[i]; break; }
        case 3: OP("s%d = s%d", i, j); if (i != j) { s[i] = s[j]; t[i] = t[j]; } break;
        case 4: OP("s%d = move(s%d)", i, j); if (i != j) { s[i] = std::move(s[j]); t[i] = std::move(t[j]); t[j].reset(); } break;
        case 5: OP("s%d.reset()", i); s[i].reset(); t[i].reset(); break;
        case 6: OP("w%d = s%d", i, j); w[i] = SpartaWeakPointer<O>(s[j]); v[i] = t[j]; break;
        case 7: OP("w%d = w%d", i, j); { SpartaWeakPointer<O>& q = w[j]; w[i] = q; } v[i] = v[j]; break;
        case 8: OP("s%d = w%d.lock()", i, j); s[i] = w[j].lock(); t[i] = v[j].lock(); break;
        case 9: OP("w%d = {}", i); w[i] = SpartaWeakPointer<O>(); v[i].reset(); break;
        case 10: { OP("copies of s%d", i); std::vector<SpartaSharedPointer<O>> c(r.range(1, 5), s[i]); for (auto& q : c) CHECK(q.get() == s[i].get(), "copy"); if (t[i]) CHECKEQ(s[i].use_count(), t[i].use_count() + c.size(), "use count"); SpartaSharedPointer<O> m(std::move(c[0])); CHECK(!c[0] && m.get() == s[i].get(), "move"); break; }
        case 11: if (t[i] && t[j] && i != j) { // no cycles: link towards larger ids
                if (t[i]->id % 1000000 < t[j]->id % 1000000) { OP("s%d->next = s%d", i, j); s[i]->next = s[j]; t[i]->next = t[j]; } } break;
        case 12: if (t[i]) { OP("s%d = s%d->next", i, i); if (r.chance(50)) { s[i] = s[i]->next; auto n = t[i]->next; t[i] = n; } else { s[i] = std::move(s[i]->next); auto n = std::move(t[i]->next); t[i]->next.reset(); t[i] = n; } } break;
        case 13: if (t[i] && i != j) { OP("s%d = s%d->next", j, i); s[j] = s[i]->next; t[j] = t[i]->next; } break;
        case 14: { OP("upcast s%d", i); SpartaSharedPointer<Base> b(s[i]); CHECK((b.get() != nullptr) == bool(t[i]), "upcast"); if (t[i]) { CHECKEQ(b->id, t[i]->id, "upcast"); CHECKEQ(b.use_count(), t[i].use_count() + 1, "upcast use count"); } break; }
        case 15: { OP("w%d = move(w%d)", i, j); if (i != j) { w[i] = std::move(w[j]); v[i] = v[j]; v[j].reset(); } break; }
        case 16: { OP("two locks of w%d", i); auto a = w[i].lock(), b = w[i].lock(); bool ex = v[i].expired(); CHECK(!a == ex && !b == ex, "lock yields an owner exactly while alive"); if (!ex) CHECKEQ(a.use_count(), v[i].use_count() + 2, "use count"); else CHECK(w[i].expired() && w[i].use_count() == 0, "expired"); break; }
        }
        size_t n = 0;
        for (auto& q : all) { bool al2 = !q.second.expired(); n += al2; if (!al2) CHECKEQ(died.count(q.first), 1, "object without owner released exactly once"); else CHECKEQ(died.count(q.first), 0, "owned object alive"); }
        CHECKEQ(alive.size(), n, "live objects");
        for (int q = 0; q < N; ++q) {
            CHECKEQ(bool(s[q]), bool(t[q]), "null"); CHECKEQ(!s[q], !t[q], "null"); CHECKEQ(s[q] == nullptr, !t[q], "null");
            if (t[q]) { CHECKEQ(s[q]->id, t[q]->id, "object"); CHECKEQ((*s[q]).id, t[q]->id, "object"); }
            CHECKEQ(s[q].use_count(), t[q].use_count(), "use count");
            CHECKEQ(w[q].expired(), v[q].expired(), "expired"); CHECKEQ(w[q].use_count(), v[q].use_count(), "weak use count");
            for (int u = 0; u < N; ++u) CHECKEQ(s[q] == s[u], t[q] == t[u], "equality");
        }
        if (pool) { CHECK(al.getNumAllocated() - al.getNumFree() >= n && al.getNumAllocated() <= cap, "pool accounting"); CHECKEQ(al.getOutstandingAllocatedObjects().size(), n, "outstanding objects"); CHECKEQ(al.hasOutstandingObjects(), al.getNumAllocated() != al.getNumFree(), "outstanding"); }
    }
    }
    CHECK(alive.empty(), "all released"); if (pool) CHECKEQ(al.getNumFree(), al.getNumAllocated(), "every block came back");
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned c = 0; c < 8000 * scale; ++c) { bool p = c & 1; CASE(p ? "pool" : "heap"); run(r, p); }
}

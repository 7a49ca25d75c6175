// PROPERTY: P12
// ASSUME: FastList capacity below 2^30; the comparator is a strict weak order
#include "verif.h"
#include <cstddef>
#include "sparta/resources/PriorityQueue.hpp"
// an element is a key (low half) and a tag (high half), ordered by key alone: equal elements are distinguishable
using E = uint64_t;
struct Less { bool operator()(const E& a, const E& b) const { return uint32_t(a) < uint32_t(b); } };
using Q = sparta::PriorityQueue<E, Less, 8>;
using L = sparta::utils::FastList<E>;
#include "fastlist_model.h"
static uint32_t key(uint64_t i) { return (uint32_t)val0(A(i)); }      // key of the element at position i
struct GX { uint64_t j; uint32_t x; };
static GX x_;
// the loop stands at a list position (or the end) and every element passed does not come after x
static bool scanned(void*, uint64_t v) {
    uint32_t k = (uint32_t)v;
    uint64_t j = x_.j;
    if (k == 0xffffffffu) return (j >= g_.n) | !(x_.x < key(j));
    v_assume((k >= g_.cap) | ((pos(k) < g_.cap) & (at(pos(k)) == k)));      // permutation axiom
    return (k < g_.cap) & (pos(k) < g_.n) & ((j >= pos(k)) | !(x_.x < key(j)));
}
extern "C" void vh_bpq_insert() {
    Q* q = v_obj<Q>("q");
    L* l = anyAt(&q->priority_items_);
    uint64_t n = g_.n, i = v_u32("i"), j = v_u32("j"), p = v_u32("p");
    uint32_t x = v_u32("key"), tg = v_u32("tag");
    v_assume(n < g_.cap && j < n);
    x_.j = j; x_.x = x;
    v_inv(scanned, nullptr, 1);
    uint64_t node = A(n);
    q->insert(x | uint64_t(tg) << 32);
    v_assert(q->size() == n + 1, "insert.size");
    v_assert(V(l, node) == (x | uint64_t(tg) << 32), "insert.new-node-holds-the-element");
    uint32_t nx = l->nodes_[node].next;
    if (nx == 0xffffffffu) {
        v_cover("at-end");
        v_assert(!(x < key(j)), "insert.behind-every-element-it-does-not-precede");
        checkList(l, i, n + 1, [&](uint64_t s) { return s < n ? A(s) : node; });
    } else {
        v_assume(p < n && A(p) == nx);            // p: the position it was put in front of
        v_cover("in-front");
        v_assert(x < key(p), "insert.in-front-of-an-element-it-precedes");
        v_assert(j >= p || !(x < key(j)), "insert.behind-equal-and-earlier-elements");
        checkList(l, i, n + 1, [&](uint64_t s) { return s < p ? A(s) : s == p ? node : A(s - 1); });
    }
    v_assert(V(l, A(j)) == val0(A(j)), "insert.values-unchanged");
}
extern "C" void vh_bpq_full() {
    Q* q = v_obj<Q>("q");
    L* l = anyAt(&q->priority_items_);
    uint64_t n = g_.n, i = v_u32("i");
    v_assume(n == g_.cap);
    x_.j = v_u32("j"); x_.x = v_u32("key");
    v_assume(x_.j < n);
    bool threw = false;
    v_inv(scanned, nullptr, 1);
    try { q->insert(x_.x); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw, "insert.rejected-when-full");
    checkList(l, i, n, [](uint64_t s) { return A(s); });
    v_assert(V(l, A(x_.j)) == val0(A(x_.j)), "insert.rejected-changes-nothing");
}
extern "C" void vh_bpq_pop() {
    Q* q = v_obj<Q>("q");
    L* l = anyAt(&q->priority_items_);
    uint64_t n = g_.n, i = v_u32("i");
    bool threw = false, t2 = false;
    E top = 0;
    try { top = q->top(); } catch (const sparta::SpartaException&) { t2 = true; }
    v_assert(t2 == (n == 0) && (t2 || (uint32_t)top == key(0)), "top.yields-the-first");
    try { q->pop(); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (n == 0), "pop.rejected-exactly-when-empty");
    if (threw) return;
    checkList(l, i, n - 1, [](uint64_t s) { return A(s + 1); });
}

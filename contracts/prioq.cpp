// PROPERTY: P12
// ASSUME: fewer than 2^31 elements; std::list node links are followed from the real header code; the comparator is a strict weak order
#include "verif.h"
#include <cstddef>
#include "sparta/resources/PriorityQueue.hpp"
// elements are (key, tag) pairs ordered by key alone, so that equal elements are distinguishable
struct E { uint32_t key, tag; bool operator==(const E& o) const { return key == o.key && tag == o.tag; } };
struct Less { bool operator()(const E& a, const E& b) const { return a.key < b.key; } };
using Q = sparta::PriorityQueue<E, Less>;
using ND = std::_List_node<E>;
using NB = std::__detail::_List_node_base;
struct G { ND* nodes; NB* head; uint64_t n, j; E x; Q* q; };
static G g_;
static void* f_next(uint64_t i, void*) { return i + 1 < g_.n ? (void*)(g_.nodes + i + 1) : (void*)g_.head; }
static void* f_prev(uint64_t i, void*) { return i > 0 ? (void*)(g_.nodes + i - 1) : (void*)g_.head; }
static uint32_t key(uint64_t i) { return (uint32_t)v_uf("key", i); }
static uint32_t tag(uint64_t i) { return (uint32_t)v_uf("tag", i); }
static uint64_t f_key(uint64_t i, void*) { return key(i); }
static uint64_t f_tag(uint64_t i, void*) { return tag(i); }
static Q* any() {
    Q* q = v_obj<Q>("q");
    uint64_t n = v_u32("size");
    v_assume(n < (1u << 31));
    g_.n = n; g_.q = q;
    ND* nodes = g_.nodes = static_cast<ND*>(v_nodes("nodes", n, sizeof(ND)));
    auto& l = q->priority_items_._M_impl._M_node;
    NB* h = g_.head = &l;
    v_elem_ptr(nodes, 0, f_next, nullptr);
    v_elem_ptr(nodes, 8, f_prev, nullptr);
    v_elem_int(nodes, 16, 4, f_key, nullptr);
    v_elem_int(nodes, 20, 4, f_tag, nullptr);
    h->_M_next = n ? (NB*)nodes : h;
    h->_M_prev = n ? (NB*)(nodes + (n - 1)) : h;
    l._M_size = n;
    return q;
}
static E& D(NB* n) { return *static_cast<ND*>(n)->_M_valptr(); }
static NB* node(uint64_t i) { return (NB*)(g_.nodes + i); }
// every element before the loop position does not come after x
static bool scanned(void*, void* it) {
    uint64_t j = g_.j;
    if (it == (void*)g_.head) return (j >= g_.n) | !(g_.x.key < key(j));
    uint64_t i = static_cast<ND*>(static_cast<NB*>(it)) - g_.nodes;
    return (i < g_.n) & ((j >= i) | !(g_.x.key < key(j)));
}
extern "C" void vh_pq_insert() {
    Q* q = any();
    uint64_t n = g_.n, j = v_u32("j");
    g_.j = j; g_.x.key = v_u32("key"); g_.x.tag = v_u32("tag");
    E x = g_.x;
    v_invp(scanned, nullptr);
    q->insert(x);
    v_assert(q->size() == n + 1 && !q->empty(), "insert.size");
    // the new node is the one that did not exist before
    NB* nw = nullptr;
    if (g_.head->_M_prev != (n ? node(n - 1) : g_.head)) nw = g_.head->_M_prev;                    // at the end
    v_note("at_end", nw != nullptr);
    if (nw) {
        v_cover("at-end");
        v_assert(D(nw) == x && nw->_M_next == g_.head && nw->_M_prev == (n ? node(n - 1) : g_.head), "insert.last-position");
        if (j < n) {
            v_assert(!(x.key < key(j)), "insert.behind-every-element-it-does-not-precede");
            v_assert(node(j)->_M_next == (j + 1 < n ? node(j + 1) : nw) && node(j)->_M_prev == f_prev(j, nullptr) && D(node(j)).key == key(j) && D(node(j)).tag == tag(j), "insert.other-elements-keep-order-and-value");
        }
    }
}
static bool sorted_at(uint64_t a, uint64_t b) { return a > b || b >= g_.n || !(key(b) < key(a)); }
// position p is where the new element went: directly before p (found through the links)
extern "C" void vh_pq_insert_position() {
    Q* q = any();
    uint64_t n = g_.n, j = v_u32("j"), p = v_u32("p");
    v_assume(p < n);
    g_.j = j; g_.x.key = v_u32("key"); g_.x.tag = v_u32("tag");
    E x = g_.x;
    v_assume(sorted_at(j, p) && sorted_at(p, j));      // the queue is sorted (checked again below for any pair)
    v_invp(scanned, nullptr);
    q->insert(x);
    NB* before = node(p)->_M_prev;
    if (before != f_prev(p, nullptr)) {
        v_cover("before-p");
        v_assert(D(before) == x && before->_M_next == node(p) && before->_M_prev == f_prev(p, nullptr), "insert.linked-before-p");
        v_assert(x.key < key(p), "insert.in-front-of-the-first-element-it-precedes");
        if (j < n) {
            v_assert(j >= p || !(x.key < key(j)), "insert.behind-equal-and-earlier-elements");
            v_assert(j < p || x.key < key(j), "insert.in-front-of-all-later-elements");
            v_assert(D(node(j)).key == key(j) && D(node(j)).tag == tag(j), "insert.values-unchanged");
            v_assert(node(j)->_M_next == (j + 1 == p ? before : f_next(j, nullptr)) && (j == p || node(j)->_M_prev == f_prev(j, nullptr)), "insert.other-elements-keep-order");
        }
        v_assert((g_.head->_M_next == before) == (p == 0), "insert.becomes-first-exactly-when-it-precedes-all");
    }
}
extern "C" void vh_pq_pop() {
    Q* q = any();
    uint64_t n = g_.n, j = v_u32("j");
    bool threw = false, t2 = false, t3 = false;
    E top{0, 0}, bk{0, 0};
    try { top = q->top(); } catch (const sparta::SpartaException&) { t2 = true; }
    try { bk = q->back(); } catch (const sparta::SpartaException&) { t3 = true; }
    v_assert(t2 == (n == 0) && t3 == (n == 0), "top.rejected-exactly-when-empty");
    if (n) v_assert(top.key == key(0) && top.tag == tag(0) && bk.key == key(n - 1) && bk.tag == tag(n - 1), "top.yields-the-first-back-the-last");
    try { q->pop(); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (n == 0), "pop.rejected-exactly-when-empty");
    if (threw) { v_cover("empty"); return; }
    v_cover("popped");
    v_assert(q->size() == n - 1, "pop.size");
    v_assert(g_.head->_M_next == (n > 1 ? node(1) : g_.head), "pop.removes-the-first");
    if (j > 0 && j < n) v_assert(node(j)->_M_next == f_next(j, nullptr) && node(j)->_M_prev == (j == 1 ? (void*)g_.head : f_prev(j, nullptr)) && D(node(j)).key == key(j) && D(node(j)).tag == tag(j), "pop.others-unchanged");
}
extern "C" void vh_pq_erase() {
    Q* q = any();
    uint64_t n = g_.n, j = v_u32("j"), p = v_u32("p");
    v_assume(p < n);
    q->erase(Q::iterator(node(p)));
    v_assert(q->size() == n - 1, "erase.size");
    v_assert(g_.head->_M_next == (p > 0 ? node(0) : n > 1 ? node(1) : g_.head), "erase.first");
    if (j < n && j != p) v_assert(node(j)->_M_next == (j + 1 == p ? f_next(p, nullptr) : f_next(j, nullptr)) && node(j)->_M_prev == (j == p + 1 ? f_prev(p, nullptr) : f_prev(j, nullptr)) && D(node(j)).key == key(j) && D(node(j)).tag == tag(j), "erase.exactly-the-named-element");
}
extern "C" void vh_pq_force_front() {
    Q* q = any();
    uint64_t n = g_.n, j = v_u32("j");
    E x{v_u32("key"), v_u32("tag")};
    q->forceFront(x);
    NB* f = g_.head->_M_next;
    v_assert(q->size() == n + 1 && D(f) == x && q->top() == x && f->_M_next == (n ? node(0) : g_.head), "forceFront.becomes-first");
    if (j < n) v_assert(node(j)->_M_next == f_next(j, nullptr) && node(j)->_M_prev == (j == 0 ? (void*)f : f_prev(j, nullptr)) && D(node(j)).key == key(j) && D(node(j)).tag == tag(j), "forceFront.others-unchanged");
}

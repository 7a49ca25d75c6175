// abstract pre-state of a FastList: a permutation of its nodes (list positions, then free positions)
#pragma once
using N = L::Node;
struct G { N* nodes; uint64_t cap, n; };
static G g_;
// pre-state: a permutation `at` of the nodes; positions 0..n-1 are the list, n..cap-1 the free list
static uint64_t at(uint64_t i) { return v_uf("at", i); }
static uint64_t pos(uint64_t k) { return v_uf("pos", k); }
static void axAt(uint64_t i) { v_assume((at(i) < g_.cap) & (pos(at(i)) == i)); }
static void axPos(uint64_t k) { v_assume((pos(k) < g_.cap) & (at(pos(k)) == k)); }
static uint64_t val0(uint64_t k) { return v_uf("value", k); }
static uint64_t next0(uint64_t k) {
    axPos(k);
    uint64_t p = pos(k);
    if (p + 1 == g_.n || p + 1 == g_.cap) return 0xffffffffu;
    axAt(p + 1);
    return at(p + 1);
}
static uint64_t prev0(uint64_t k) {
    axPos(k);
    uint64_t p = pos(k);
    if (p >= g_.n) return (uint32_t)v_uf("free_prev", k);
    if (p == 0) return 0xffffffffu;
    axAt(p - 1);
    return at(p - 1);
}
static uint64_t f_next(uint64_t k, void*) { return next0(k); }
static uint64_t f_prev(uint64_t k, void*) { return prev0(k); }
static uint64_t f_idx(uint64_t k, void*) { return k; }
static uint64_t f_val(uint64_t k, void*) { return val0(k); }
static L* anyAt(L* l) {
    uint64_t cap = v_u32("capacity"), n = v_u32("size");
    v_assume(cap >= 1 && cap < (1u << 30) && n <= cap);
    g_.cap = cap; g_.n = n;
    N* nodes = g_.nodes = static_cast<N*>(v_array("nodes", cap, sizeof(N)));
    v_elem_int(nodes, offsetof(N, index), 4, f_idx, nullptr);
    v_elem_int(nodes, offsetof(N, next), 4, f_next, nullptr);
    v_elem_int(nodes, offsetof(N, prev), 4, f_prev, nullptr);
    v_elem_int(nodes, offsetof(N, type_storage), 8, f_val, nullptr);
    auto& v = l->nodes_._M_impl;
    v._M_start = nodes; v._M_finish = v._M_end_of_storage = nodes + cap;
    l->size_ = n;
    if (n) { axAt(0); axAt(n - 1); l->first_node_ = at(0); l->last_node_ = at(n - 1); } else l->first_node_ = l->last_node_ = -1;
    if (n < cap) { axAt(n); l->free_head_ = at(n); } else l->free_head_ = -1;
    return l;
}
// post-state `seq` (a function of the position), checked at an arbitrary position i of a list of length n
template <class F> static void checkList(L* l, uint64_t i, uint64_t n, F seq) {
    v_assert(l->size() == n && l->empty() == (n == 0), "list.size");
    if (n == 0) { v_assert(l->first_node_ == -1 && l->last_node_ == -1 && l->begin() == l->end(), "list.empty"); return; }
    v_assert((uint32_t)l->first_node_ == seq(0) && (uint32_t)l->last_node_ == seq(n - 1), "list.first-and-last");
    if (i >= n) return;
    N& k = l->nodes_[seq(i)];
    v_assert((uint32_t)k.index == seq(i), "list.node-index");
    v_assert((uint32_t)k.next == (i + 1 < n ? (uint32_t)seq(i + 1) : 0xffffffffu), "list.order-forward");
    v_assert((uint32_t)k.prev == (i > 0 ? (uint32_t)seq(i - 1) : 0xffffffffu), "list.order-backward");
}
template <class F> static void checkFree(L* l, uint64_t r, uint64_t nf, F fre) {
    if (nf == 0) { v_assert(l->free_head_ == -1, "free.none-when-full"); return; }
    v_assert((uint32_t)l->free_head_ == fre(0), "free.head");
    if (r < nf) v_assert((uint32_t)l->nodes_[fre(r)].next == (r + 1 < nf ? (uint32_t)fre(r + 1) : 0xffffffffu), "free.chain");
}
static uint64_t V(L* l, uint64_t node) { return *reinterpret_cast<uint64_t*>(l->getStorage((int)node)); }
static uint64_t A(uint64_t i) { axAt(i); return at(i); }


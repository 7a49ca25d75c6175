// PROPERTY: P09
// ASSUME: fewer than 2^31 slots and fewer than 2^63 writes; statistics and pipeline collection not attached
// ASSUME: std::unordered_set of the valid slots is a set (find, insert, erase, clear: standard library)
// ASSUME: std::list node destruction (_M_clear) frees exactly the nodes of the list (standard library)
// REPLACE: std::unordered_set<unsigned int, std::hash<unsigned int>, std::equal_to<unsigned int>, std::allocator<unsigned int>>::find( => st_find
// REPLACE: std::unordered_set<unsigned int, std::hash<unsigned int>, std::equal_to<unsigned int>, std::allocator<unsigned int>>::insert( => st_insert
// REPLACE: std::unordered_set<unsigned int, std::hash<unsigned int>, std::equal_to<unsigned int>, std::allocator<unsigned int>>::erase( => st_erase
// REPLACE: std::unordered_set<unsigned int, std::hash<unsigned int>, std::equal_to<unsigned int>, std::allocator<unsigned int>>::clear( => st_clear
// REPLACE: ::_M_clear() => st_list_free
// REPLACE: sparta::Array<unsigned long, (sparta::ArrayType)1>::updateRelativeAge_() => st_ages
#include "verif.h"
#include <cstddef>
#include <exception>
#include <memory>
#include "sparta/resources/FrontArray.hpp"
using A = sparta::Array<uint64_t, sparta::ArrayType::AGED>;
using AN = sparta::Array<uint64_t, sparta::ArrayType::NORMAL>;
using FA = sparta::FrontArray<uint64_t, sparta::ArrayType::AGED>;
using ND = std::_List_node<uint32_t>;
using NB = std::__detail::_List_node_base;
static const uint64_t NONE = ~0ull;
struct G { void* slots; ND* nodes; NB* head; uint64_t n, cap, next, s, j, q, ins, er, cleared, ninsert, nerase, stub, ages, sz; void* dummy; NB *kn, *kp, *hn, *hp; };
static G g_;
// the valid slots: an arbitrary set, with the changes made since entry
static bool pre(uint64_t i) { return (v_uf("valid", i) & 1) == 1; }
static bool valid(uint64_t i) { return (i == g_.ins) | ((i != g_.er) & (g_.cleared == 0) & pre(i)); }
static uint64_t posf(uint64_t i) { return v_uf("pos", i); }                 // position of slot i in the age list (0 = youngest)
static uint64_t pos(uint64_t i) { v_assume(!pre(i) | (posf(i) < g_.n)); v_assume(!pre(i) | (v_uf("idx", posf(i)) == i)); return posf(i); }
static uint64_t idx(uint64_t k) { uint64_t i = v_uf("idx", k); v_assume((k >= g_.n) | ((i < g_.cap) & pre(i) & (posf(i) == k))); return i; }
static uint64_t abs_(uint64_t i) { uint64_t a = v_uf("abs", i); v_assume(!pre(i) | (a < g_.next)); return a; }
extern "C" {
void st_list_free(void*) {}
void* st_find(void*, const uint32_t& i) { v_assume((v_uf("cnt", i + 1ull) == v_uf("cnt", i) + pre(i)) & ((i >= g_.cap) | (v_uf("cnt", i + 1ull) <= g_.n))); return valid(i) ? g_.dummy : nullptr; }
struct PB { void* p; bool b; };
PB st_insert(void*, const uint32_t& i) { g_.ins = i; ++g_.ninsert; return {g_.dummy, true}; }
uint64_t st_erase(void*, const uint32_t& i) { g_.er = i; ++g_.nerase; return 1; }
void st_clear(void*) { g_.cleared = 1; }
}
static void* f_next(uint64_t k, void*) { return k + 1 < g_.n ? (void*)(g_.nodes + k + 1) : (void*)g_.head; }
static void* f_prev(uint64_t k, void*) { return k > 0 ? (void*)(g_.nodes + k - 1) : (void*)g_.head; }
static uint64_t f_idx(uint64_t k, void*) { return idx(k); }
static void* f_lp(uint64_t i, void*) { return (void*)(g_.nodes + pos(i)); }
static uint64_t f_rel(uint64_t i, void*) { return g_.n - 1 - pos(i); }
static uint64_t f_abs(uint64_t i, void*) { return abs_(i); }
static uint64_t f_data(uint64_t i, void*) { return v_uf("data", i); }
template <class T> static T* any() {
    T* a = v_obj<T>("a");
    using P = typename T::ArrayPosition;
    uint64_t n = v_u32("valid"), cap = v_u32("capacity"), next = v_u64("next age id");
    v_assume((cap >= 1) & (cap < (1u << 31)) & (n <= cap) & (next < (1ull << 63)));
    g_ = G{};
    g_.n = n; g_.cap = cap; g_.next = next; g_.ins = g_.er = NONE; g_.dummy = v_obj<uint64_t>("set node");
    *const_cast<uint32_t*>(&a->num_entries_) = cap; *const_cast<uint32_t*>(&a->invalid_entry_) = cap + 1;
    a->num_valid_ = n; a->next_age_abs_id_ = next;
    P* s = (P*)(g_.slots = v_array("slots", cap, sizeof(P)));
    *(P**)&a->array_ = s;
    ND* nodes = g_.nodes = static_cast<ND*>(v_nodes("nodes", n, sizeof(ND)));
    NB* h = g_.head = &a->aged_list_._M_impl._M_node;
    v_elem_ptr(nodes, 0, f_next, nullptr);
    v_elem_ptr(nodes, 8, f_prev, nullptr);
    v_elem_int(nodes, 16, 4, f_idx, nullptr);
    v_elem_int(s, offsetof(P, data), 8, f_data, nullptr);
    v_elem_ptr(s, offsetof(P, list_pointer), f_lp, nullptr);
    v_elem_int(s, offsetof(P, age_abs_id), 8, f_abs, nullptr);
    v_elem_int(s, offsetof(P, age_rel_id), 4, f_rel, nullptr);
    h->_M_next = n ? (NB*)nodes : h;
    h->_M_prev = n ? (NB*)(nodes + (n - 1)) : h;
    a->aged_list_._M_impl._M_node._M_size = n;
    new (&a->utilization_) decltype(a->utilization_)();
    new (&a->collector_) decltype(a->collector_)();
    new (&a->age_collector_) decltype(a->age_collector_)();
    return a;
}
static A::ArrayPosition& S(uint64_t i) { return ((A::ArrayPosition*)g_.slots)[i]; }
static NB* N(uint64_t k) { return (NB*)(g_.nodes + k); }
static uint64_t val(NB* p) { return *((ND*)p)->_M_valptr(); }
// another valid slot j, whose place in the age order stays
static void other() {
    g_.j = v_u32("other"); v_assume(g_.j < g_.cap && pre(g_.j)); (void)pos(g_.j);
}
// the age update is verified on its own (vh_ages); erase and overwrite use its contract: called with the list in its final form
extern "C" void st_ages(A* a) {
    if (!g_.stub) return a->updateRelativeAge_();
    ++g_.ages; g_.sz = a->aged_list_.size();
    g_.kn = N(pos(g_.j))->_M_next; g_.kp = N(pos(g_.j))->_M_prev; g_.hn = g_.head->_M_next; g_.hp = g_.head->_M_prev;
}
static bool agesDone(A* a) { NB* n = N(pos(g_.j)); return (g_.ages == 1) & (g_.sz == a->aged_list_.size()) & (g_.kn == n->_M_next) & (g_.kp == n->_M_prev) & (g_.hn == g_.head->_M_next) & (g_.hp == g_.head->_M_prev); }
static uint64_t f_anyrel(uint64_t i, void*) { return v_uf("rel", i); }
static bool wAges(void*, void* p, uint64_t i) { return (i <= g_.n) & (i == 0 ? p == (void*)g_.head : p == (void*)N(g_.n - i)); }
static bool aAges(void*, uint64_t i) { uint64_t r = g_.n - 1 - posf(g_.j); return (i <= g_.n) & (S(g_.j).age_rel_id == (i > r ? r : (uint32_t)v_uf("rel", g_.j))); }
extern "C" void vh_ages() {
    A* a = any<A>();
    v_elem_int(g_.slots, offsetof(A::ArrayPosition, age_rel_id), 4, f_anyrel, nullptr);
    other();
    v_invpi(wAges, nullptr); v_inv(aAges, nullptr, 1);
    a->updateRelativeAge_();
    v_cover("updated");
    v_assert(a->getAge(g_.j) == g_.n - 1 - pos(g_.j), "ages.number-of-older-slots");
    uint64_t i = v_u32("free slot"); v_assume(i < g_.cap);
    v_assert(S(g_.j).data == v_uf("data", g_.j) && S(g_.j).list_pointer._M_node == N(pos(g_.j)), "ages.change-nothing-else");
}
// age update: after i steps from the oldest, the walk stands before node ...
static bool wFree(void*, void* p, uint64_t i) { return (i <= g_.n + 1) & (i == 0 ? p == (void*)g_.head : i <= g_.n ? p == (void*)N(g_.n - i) : p == (void*)g_.head->_M_next); }
static bool aFree(void*, uint64_t i) {
    uint64_t r = g_.n - 1 - posf(g_.j);
    return (i <= g_.n + 1) & (S(g_.j).age_rel_id == r) & ((i < g_.n + 1) | (S(g_.s).age_rel_id == g_.n));
}
extern "C" void vh_write_free() {
    A* a = any<A>();
    uint64_t s = g_.s = v_u32("slot"), x = v_u64("x");
    v_assume(s < g_.cap && !pre(s) && g_.n < g_.cap);     // a slot is free, so not all are valid
    other();
    uint64_t j = g_.j, old = S(j).data, n = g_.n;
    v_invpi(wFree, nullptr); v_inv(aFree, nullptr, 1);
    v_bool("move") ? a->write(s, uint64_t(x)) : a->write(s, x);
    v_cover("written");
    v_assert(g_.ins == s && g_.ninsert == 1 && g_.nerase == 0 && a->isValid(s) && a->read(s) == x, "write.slot-holds-the-datum");
    v_assert(a->numValid() == n + 1 && a->aged_list_.size() == n + 1 && a->numFree() == g_.cap - n - 1, "write.counts");
    NB* f = g_.head->_M_next;
    v_assert(val(f) == s && f->_M_prev == g_.head && f->_M_next == N(0) && S(s).list_pointer._M_node == f && N(0)->_M_prev == f, "write.slot-becomes-the-youngest");
    v_assert(S(s).age_abs_id == g_.next && a->next_age_abs_id_ == g_.next + 1 && a->isYounger(s, j) && a->isOlder(j, s), "write.younger-than-the-others");
    v_assert(a->getAge(s) == n, "write.age-of-the-slot");
    v_assert(a->isValid(j) && a->read(j) == old && S(j).age_abs_id == abs_(j), "write.others-keep-data");
    v_assert(a->getAge(j) == n - 1 - pos(j) && S(j).list_pointer._M_node == N(pos(j)) && N(pos(j))->_M_next == f_next(pos(j), nullptr) && val(N(pos(j))) == j, "write.others-keep-order");
}
extern "C" void vh_write_empty() {
    A* a = any<A>();
    uint64_t s = v_u32("slot"), x = v_u64("x");
    v_assume(s < g_.cap && !pre(s) && g_.n == 0);
    a->write(s, x);
    NB* f = g_.head->_M_next;
    v_assert(a->isValid(s) && a->read(s) == x && a->numValid() == 1 && val(f) == s && f->_M_next == g_.head && g_.head->_M_prev == f && a->getAge(s) == 0, "write.first");
    v_cover("written");
}
extern "C" void vh_erase() {
    A* a = any<A>();
    uint64_t s = g_.s = v_u32("slot");
    v_assume(s < g_.cap && pre(s));
    g_.q = pos(s);
    other();
    uint64_t j = g_.j, old = S(j).data, n = g_.n;
    v_assume(j != s);
    g_.stub = 1;
    if (v_bool("iter")) a->erase(A::iterator(a, s, false, false, false)); else a->erase((uint32_t)s);
    v_cover("erased");
    v_assert(g_.er == s && g_.nerase == 1 && g_.ninsert == 0 && !a->isValid(s), "erase.slot-becomes-free");
    v_assert(a->numValid() == n - 1 && a->aged_list_.size() == n - 1 && a->numFree() == g_.cap - n + 1, "erase.counts");
    uint64_t k = pos(j), q = g_.q;
    v_assert(a->isValid(j) && a->read(j) == old && S(j).age_abs_id == abs_(j), "erase.others-keep-data");
    v_assert(S(j).list_pointer._M_node == N(k) && val(N(k)) == j && agesDone(a), "erase.others-keep-place-and-ages-updated");
    v_assert(N(k)->_M_next == (k + 1 == q ? f_next(q, nullptr) : f_next(k, nullptr)) && N(k)->_M_prev == (k == q + 1 ? f_prev(q, nullptr) : f_prev(k, nullptr)), "erase.others-keep-order");
    if (q == 0 && k == 1) { v_cover("youngest"); v_assert(g_.head->_M_next == N(1), "erase.next-becomes-youngest"); }
    if (q == n - 1 && k == n - 2) { v_cover("oldest"); v_assert(g_.head->_M_prev == N(k), "erase.next-becomes-oldest"); }
}
extern "C" void vh_erase_last() {
    A* a = any<A>();
    uint64_t s = v_u32("slot");
    v_assume(s < g_.cap && pre(s) && g_.n == 1);
    g_.q = pos(s);
    a->erase((uint32_t)s);
    v_assert(!a->isValid(s) && a->numValid() == 0 && g_.head->_M_next == g_.head && g_.head->_M_prev == g_.head && a->aged_list_.size() == 0, "erase.last-leaves-empty");
    v_cover("erased");
}
extern "C" void vh_overwrite() {
    A* a = any<A>();
    uint64_t s = g_.s = v_u32("slot"), x = v_u64("x");
    v_assume(s < g_.cap && pre(s));
    g_.q = pos(s);
    other();
    uint64_t j = g_.j, old = S(j).data, n = g_.n;
    v_assume(j != s);
    g_.stub = 1;
    a->write(s, x);
    v_cover("written");
    NB* f = g_.head->_M_next;
    v_assert(a->isValid(s) && g_.ins == s && a->read(s) == x && a->numValid() == n && a->aged_list_.size() == n, "overwrite.slot-holds-the-datum");
    v_assert(val(f) == s && f->_M_prev == g_.head && S(s).list_pointer._M_node == f && S(s).age_abs_id == g_.next && g_.hn == f, "overwrite.slot-becomes-the-youngest");
    uint64_t k = pos(j), q = g_.q;
    v_assert(a->isValid(j) && a->read(j) == old && a->isOlder(j, s) && S(j).age_abs_id == abs_(j), "overwrite.others-keep-data");
    v_assert(S(j).list_pointer._M_node == N(k) && val(N(k)) == j && agesDone(a), "overwrite.others-keep-place-and-ages-updated");
    v_assert(N(k)->_M_next == (k + 1 == q ? f_next(q, nullptr) : f_next(k, nullptr)), "overwrite.others-keep-order");
}
// ------------------------------------------------------------------ queries
static bool wOld(void*, void* p, uint64_t i) { return (i <= g_.n) & (p == (i == 0 ? (void*)g_.head : (void*)N(g_.n - i))); }
static bool wYoung(void*, void* p, uint64_t i) { return (i <= g_.n) & (p == (i < g_.n ? (void*)N(i) : (void*)g_.head)); }
static bool lastOld(void*, uint64_t v, uint64_t i) { return (i <= g_.s + 1) & ((i == 0) | (i > g_.n) | (v == idx(g_.n - i))); }
static bool lastYoung(void*, uint64_t v, uint64_t i) { return (i <= g_.s + 1) & ((i == 0) | (i > g_.n) | (v == idx(i - 1))); }
extern "C" void vh_oldest() {
    A* a = any<A>();
    uint64_t nth = g_.s = v_u32("nth"); v_assume(nth < g_.n);
    v_invpi(wOld, nullptr); v_inv2(lastOld, nullptr);
    auto it = a->getOldestIndex(nth);
    v_cover("found");
    v_assert(it.getIndex() == idx(g_.n - 1 - nth) && it.isValid(), "oldest.nth-in-write-order");
    v_assert(a->getAge(it.getIndex()) == nth, "oldest.agrees-with-age");
}
extern "C" void vh_youngest() {
    A* a = any<A>();
    uint64_t nth = g_.s = v_u32("nth"); v_assume(nth < g_.n);
    v_invpi(wYoung, nullptr); v_inv2(lastYoung, nullptr);
    auto it = a->getYoungestIndex(nth);
    v_cover("found");
    v_assert(it.getIndex() == idx(nth) && it.isValid(), "youngest.nth-in-write-order");
}
static bool notYet(void*, void* p) {
    uint64_t v = p == (void*)g_.head ? g_.n : uint64_t((ND*)p - g_.nodes);
    return (v <= g_.n) & (v <= g_.q);
}
extern "C" void vh_next_oldest() {
    A* a = any<A>();
    uint32_t s = v_u32("slot");
    v_assume(s < g_.cap && pre(s));
    uint64_t q = g_.q = pos(s);
    v_invp(notYet, nullptr);
    uint32_t i = s;
    bool r = a->getNextOldestIndex(i);
    if (q == 0) { v_cover("youngest"); v_assert(!r && i == s, "next.none-after-the-youngest"); }
    else { v_cover("next"); v_assert(r && i == idx(q - 1), "next.younger-neighbour"); }
}
extern "C" void vh_compare() {
    A* a = any<A>();
    uint64_t i = v_u32("i"), j = v_u32("j");
    v_assume(i < g_.cap && j < g_.cap && i != j && pre(i) && pre(j));
    v_assume((abs_(i) > abs_(j)) == (pos(i) < pos(j)) && abs_(i) != abs_(j));      // age order of the pre-state, kept by write and erase (above)
    v_assert(a->isYounger(i, j) == (pos(i) < pos(j)) && a->isOlder(i, j) == (pos(i) > pos(j)), "compare.in-write-order");
    A::iterator x(a, i, false, false, false), y(a, j, false, false, false);
    v_assert(x.isYounger(y) == (pos(i) < pos(j)) && x.isOlder(y) == (pos(i) > pos(j)) && (x < y) == (pos(i) < pos(j)), "compare.iterators");
    v_cover("compared");
}
static bool iterInv(void*, void* p) { return notYet(nullptr, p); }
extern "C" void vh_iter_aged() {
    A* a = any<A>();
    uint32_t s = v_u32("slot");
    v_assume(s < g_.cap && pre(s));
    uint64_t q = g_.q = pos(s);
    v_assume(idx(g_.n - 1) < g_.cap);
    v_invp(notYet, nullptr);
    A::iterator it(a, s, true, false, true);
    bool post = v_bool("post");
    if (post) { auto o = it++; v_assert(o.getIndex() == s, "iterate.postfix-returns-the-old-position"); } else ++it;
    if (q == 0) { v_cover("end"); v_assert(it == a->aend(), "iterate.ends-after-the-youngest"); }
    else { v_cover("step"); v_assert(it.getIndex() == idx(q - 1) && it.isValid() && *it == S(idx(q - 1)).data, "iterate.oldest-to-youngest"); }
}
extern "C" void vh_iter_begin() {
    A* a = any<A>();
    const A* ca = a;
    if (a->numValid()) { v_cover("some"); v_assert(a->abegin().getIndex() == idx(g_.n - 1) && ca->abegin().getIndex() == idx(g_.n - 1), "iterate.begins-at-the-oldest"); }
    else { v_cover("none"); v_assert(a->abegin() == a->aend(), "iterate.empty"); }
    v_assert(a->begin().index_ == 0 && !a->end().isValid(), "iterate.begin-end");
}
extern "C" void vh_iter_index() {
    A* a = any<A>();
    uint32_t s = v_u32("slot");
    v_assume(s < g_.cap);
    A::iterator it(a, s, false, false, false), c = a->getCircularIterator(s);
    v_assert(it.isValid() == pre(s) && c.isValid() == pre(s), "iterate.validity-is-the-slot's");
    if (pre(s)) v_assert(*it == S(s).data && *c == S(s).data, "iterate.reads-the-slot");
    ++it; ++c;
    v_assert(c.getIndex() == (s + 1 == g_.cap ? 0 : s + 1), "iterate.circular");
    if (s + 1 == g_.cap) { v_cover("end"); v_assert(it == a->end(), "iterate.index-order-ends"); } else v_assert(it.getIndex() == s + 1, "iterate.index-order");
}
extern "C" void vh_reject() {
    A* a = any<A>();
    uint32_t s = v_u32("slot");
    bool wr = v_bool("write");
    if (wr) { v_assume(s >= g_.cap); } else v_assume(!pre(s));
    bool thrown = false;
    unsigned k = v_u8("op");
    try { if (wr) a->write(s, 0); else if (k == 0) a->read(s); else if (k == 1) a->access(s); else a->erase(s); } catch (...) { thrown = true; }
    v_assert(thrown && a->num_valid_ == g_.n && g_.ninsert + g_.nerase == 0, "reject.outside-or-invalid");
    if (wr) v_cover("write"); else v_cover("read");
}
extern "C" void vh_access() {
    A* a = any<A>();
    uint32_t s = v_u32("slot"), j = v_u32("other"); uint64_t x = v_u64("x");
    v_assume(s < g_.cap && j < g_.cap && pre(s) && s != j);
    v_assert(a->read(s) == S(s).data && &a->read(s) == &S(s).data && &a->access(s) == &S(s).data && a->read(s) == v_uf("data", s), "read.the-slot's-datum");
    a->access(s) = x;
    v_assert(a->read(s) == x && S(j).data == v_uf("data", j), "access.writes-only-the-slot");
}
// ------------------------------------------------------------------ not aged
extern "C" void vh_normal() {
    AN* a = any<AN>();
    uint64_t s = v_u32("slot"), x = v_u64("x"), j = v_u32("other");
    v_assume(s < g_.cap && j < g_.cap && j != s);
    uint64_t n = g_.n; bool was = pre(s), wasj = pre(j);
    v_assume(!was || n > 0);
    if (v_bool("erase")) { v_assume(was); v_cover("erase"); a->erase((uint32_t)s); v_assert(!a->isValid(s) && a->numValid() == n - 1, "normal.erase"); }
    else { v_assume(was || n < g_.cap); v_cover("write"); a->write(s, x); v_assert(a->isValid(s) && a->read(s) == x && a->numValid() == n + !was, "normal.write"); }
    v_assert(a->isValid(j) == wasj && ((AN::ArrayPosition*)g_.slots)[j].data == v_uf("data", j), "normal.others-unchanged");
}
// ------------------------------------------------------------------ first / last free slot, nth valid slot
static bool front(void*, uint64_t i) { return (g_.j >= i) | pre(g_.j); }
static bool back(void*, uint64_t i) { return ((int64_t)(int32_t)i >= (int64_t)g_.j) | pre(g_.j); }
static uint64_t cnt(uint64_t i) { return v_uf("cnt", i); }      // valid slots below i
static uint64_t step(uint64_t i) { return cnt(i); }
extern "C" void vh_front() {
    FA* a = any<FA>();
    g_.j = v_u32("g"); v_assume(g_.j < g_.cap);
    uint64_t x = v_u64("x");
    v_assume(g_.n == 0 );      // the age update on a filled list: vh_write_free
    unsigned h = v_u8("how");
    v_inv(front, nullptr, 1);
    uint32_t k;
    try { k = h == 0 ? a->writeFront(x) : h == 1 ? a->writeFront(uint64_t(x)) : a->push_front(x); }
    catch (...) { v_cover("full"); v_assert(pre(g_.j) && g_.ninsert == 0, "front.rejected-only-when-all-slots-are-valid"); return; }
    v_cover("written");
    v_assert(k < g_.cap && !pre(k) && g_.ins == k && a->read(k) == x, "front.written-to-a-free-slot");
    v_assert(g_.j >= k || pre(g_.j), "front.first-free-slot");
}
extern "C" void vh_back() {
    FA* a = any<FA>();
    g_.j = v_u32("g"); v_assume(g_.j < g_.cap);
    uint64_t x = v_u64("x");
    v_assume(g_.n == 0);
    unsigned h = v_u8("how");
    v_inv(back, nullptr, 1);
    uint32_t k;
    try { k = h == 0 ? a->writeBack(x) : h == 1 ? a->writeBack(uint64_t(x)) : a->push_back(x); }
    catch (...) { v_cover("full"); v_assert(pre(g_.j) && g_.ninsert == 0, "back.rejected-only-when-all-slots-are-valid"); return; }
    v_cover("written");
    v_assert(k < g_.cap && !pre(k) && g_.ins == k && a->read(k) == x, "back.written-to-a-free-slot");
    v_assert(g_.j <= k || pre(g_.j), "back.last-free-slot");
}
static bool nthInv(void*, uint64_t n, uint64_t i) { return (i <= g_.cap) & (n == step(i)) & (n <= g_.s + 1) & (n <= g_.n) & ((i == 0) | (n <= g_.s) | pre(i - 1)); }
extern "C" void vh_nth_valid() {
    FA* a = any<FA>();
    uint64_t nth = g_.s = v_u32("nth"); v_assume(nth < g_.n);
    v_assume(cnt(0) == 0 && cnt(g_.cap) == g_.n);          // the number of valid slots
    v_inv2(nthInv, nullptr);
    const uint64_t& r = a->readValid(nth);
    uint64_t k = ((char*)&r - (char*)g_.slots) / sizeof(A::ArrayPosition);
    v_cover("read");
    v_assert(k < g_.cap && &r == &S(k).data && pre(k), "readValid.a-valid-slot");
    v_assert(step(k) == nth, "readValid.the-nth-one");
}
extern "C" void vh_clear() {
    A* a = any<A>();
    uint64_t j = v_u32("slot");
    a->valid_index_set_._M_h._M_before_begin._M_nxt = nullptr;      // slots are trivially destructible here
    a->clear();
    v_assert(a->numValid() == 0 && a->size() == 0 && !a->isValid(j) && a->aged_list_.empty() && a->numFree() == g_.cap, "clear.leaves-the-array-empty");
    v_assert(a->abegin() == a->aend(), "clear.nothing-to-iterate");
}

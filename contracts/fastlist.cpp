// PROPERTY: P12
// ASSUME: FastList capacity below 2^30
#include "verif.h"
#include <cstddef>
#include "sparta/utils/FastList.hpp"
using L = sparta::utils::FastList<uint64_t>;
#include "fastlist_model.h"
static L* any() { return anyAt(v_obj<L>("list")); }
static void emplace(uint8_t how) {
    L* l = any();
    uint64_t n = g_.n, x = v_u64("x"), i = v_u32("i"), r = v_u32("r"), p = v_u32("position");
    v_assume(p <= n);
    if (how == 1) v_assume(p == n);
    if (how == 2) v_assume(p == 0);
    bool threw = false;
    L::iterator it;
    try {
        if (how == 0) it = l->emplace(p < n ? L::const_iterator(L::iterator(l, (int)A(p))) : L::const_iterator(l->end()), x);
        else if (how == 1) it = l->emplace_back(x);
        else if (how == 2) it = l->emplace_front(x);
        else it = l->insert(p < n ? L::const_iterator(L::iterator(l, (int)A(p))) : L::const_iterator(l->end()), x);
    } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (n == g_.cap), "insert.rejected-exactly-when-full");
    if (threw) {
        v_cover("full");
        checkList(l, i, n, [](uint64_t q) { return A(q); });
        return;
    }
    v_cover("inserted");
    uint64_t node = A(n);
    auto seq = [&](uint64_t q) { return q < p ? A(q) : q == p ? node : A(q - 1); };
    checkList(l, i, n + 1, seq);
    checkFree(l, r, g_.cap - n - 1, [&](uint64_t q) { return A(n + 1 + q); });
    v_assert(*it == x && it.isValid() && (uint32_t)it.getIndex() == node, "insert.iterator-yields-the-element");
    if (i < n) v_assert(V(l, A(i)) == val0(A(i)), "insert.other-elements-keep-their-value");
}
extern "C" void vh_fl_emplace() { emplace(0); }
extern "C" void vh_fl_emplace_back() { emplace(1); }
extern "C" void vh_fl_emplace_front() { emplace(2); }
extern "C" void vh_fl_insert() { emplace(3); }
static void erase(uint8_t how) {
    L* l = any();
    uint64_t n = g_.n, i = v_u32("i"), r = v_u32("r"), p = v_u32("position");
    if (how == 1) v_assume(p + 1 == n || n == 0);
    if (how == 2) v_assume(p == 0);
    if (how == 0) v_assume(p < n);
    bool threw = false;
    L::iterator it;
    uint64_t node = n ? A(p) : 0;
    try { if (how == 0) it = l->erase(L::iterator(l, (int)node)); else if (how == 1) l->pop_back(); else l->pop_front(); }
    catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (n == 0), "pop.rejected-exactly-when-empty");
    if (threw) { v_cover("empty"); return; }
    v_cover("erased");
    auto seq = [&](uint64_t q) { return q < p ? A(q) : A(q + 1); };
    checkList(l, i, n - 1, seq);
    checkFree(l, r, g_.cap - n + 1, [&](uint64_t q) { return q == 0 ? node : A(n + q - 1); });
    if (i < n - 1) v_assert(V(l, seq(i)) == val0(seq(i)), "erase.other-elements-keep-their-value");
    if (how == 0) v_assert(p + 1 < n ? (uint32_t)it.getIndex() == A(p + 1) : it == l->end(), "erase.returns-the-following-element");
}
extern "C" void vh_fl_erase() { erase(0); }
extern "C" void vh_fl_pop_back() { erase(1); }
extern "C" void vh_fl_pop_front() { erase(2); }
extern "C" void vh_fl_iterate() {
    L* l = any();
    const L* cl = l;
    uint64_t n = g_.n, p = v_u32("position");
    v_assert(l->size() == n && l->max_size() == g_.cap, "queries");
    if (n == 0) { v_assert(l->begin() == l->end() && cl->begin() == cl->end(), "begin.empty"); return; }
    v_assert(*l->begin() == val0(A(0)) && l->front() == val0(A(0)) && cl->front() == val0(A(0)), "begin.yields-the-first");
    v_assume(p < n);
    L::iterator it(l, (int)A(p)), it2 = it;
    v_assert(*it == val0(A(p)), "iterator.yields-its-element");
    ++it; auto o = it2++;
    v_assert(it == it2 && (uint32_t)o.getIndex() == A(p), "iterator.post-increment");
    if (p + 1 < n) { v_cover("inner"); v_assert(it != l->end() && *it == val0(A(p + 1)), "iterator.next-element"); } else { v_cover("last"); v_assert(it == l->end(), "iterator.end-after-last"); }
}

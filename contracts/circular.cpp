// PROPERTY: P10
// ASSUME: fewer than 2^31 entries and fewer than 2^63 pushes; statistics and pipeline collection not attached
// ASSUME: std::list node destruction (_M_clear) frees exactly the nodes of the list (standard library)
// REPLACE: ::_M_clear() => st_list_free
#include "verif.h"
#include <cstddef>
#include "sparta/resources/CircularBuffer.hpp"
using C = sparta::CircularBuffer<uint64_t>;
using ND = std::_List_node<C::CircularBufferData>;
using NB = std::__detail::_List_node_base;
struct G { ND* nodes; NB* head; uint64_t n, start, j, k; C* c; ND* extra; };
static G g_;
extern "C" { void st_list_free(void*) {} }
// pre-state: node i of the list is nodes[i] (the list code only follows links, so addresses carry no information)
static void* f_next(uint64_t i, void*) { return i + 1 < g_.n ? (void*)(g_.nodes + i + 1) : (void*)g_.head; }
static void* f_prev(uint64_t i, void*) { return i > 0 ? (void*)(g_.nodes + i - 1) : (void*)g_.head; }
static uint64_t f_win(uint64_t i, void*) { return g_.start + i; }
static C* any() {
    C* c = v_obj<C>("c");
    uint64_t n = v_u32("size"), max = v_u32("capacity"), start = v_u64("first_index");
    v_assume(max >= 1 && max < (1u << 31) && n <= max && start < (1ull << 63));
    *const_cast<uint32_t*>(&c->max_size_) = max;
    c->num_valid_ = n; c->start_idx_ = start; c->end_idx_ = start + n;
    g_.n = n; g_.start = start; g_.c = c;
    ND* nodes = g_.nodes = static_cast<ND*>(v_nodes("nodes", n, sizeof(ND)));
    NB* h = g_.head = &c->circularbuffer_data_._M_impl._M_node;
    v_elem_ptr(nodes, 0, f_next, nullptr);
    v_elem_ptr(nodes, 8, f_prev, nullptr);
    v_elem_int(nodes, 16 + offsetof(C::CircularBufferData, window_idx), 8, f_win, nullptr);
    h->_M_next = n ? (NB*)nodes : h;
    h->_M_prev = n ? (NB*)(nodes + (n - 1)) : h;
    c->circularbuffer_data_._M_impl._M_node._M_size = n;
    new (&c->utilization_count_) decltype(c->utilization_count_)();
    new (&c->utilization_max_) decltype(c->utilization_max_)();
    new (&c->collector_) decltype(c->collector_)();
    return c;
}
static C::CircularBufferData& D(ND* n) { return *n->_M_valptr(); }
static C::iterator IT(C* c, uint64_t i) { return C::iterator(c, std::_List_iterator<C::CircularBufferData>((NB*)(g_.nodes + i)), g_.start + i); }
static bool inv_scalar(C* c) { return c->end_idx_ - c->start_idx_ == c->num_valid_ && c->circularbuffer_data_.size() == c->num_valid_ && c->num_valid_ <= c->max_size_; }

// append to a non-full buffer: element j is any present one
extern "C" void vh_circ_push() {
    C* c = any();
    uint64_t n = c->size(), cap = c->capacity(), x = v_u64("x"), j = v_u32("j");
    v_assume(n < cap);
    uint64_t start = c->start_idx_, end = c->end_idx_;
    c->push_back(x);
    v_assert(c->size() == n + 1 && c->capacity() == cap && c->numFree() == cap - n - 1, "push_back.size-grows-by-one");
    v_assert(inv_scalar(c) && c->start_idx_ == start, "push_back.window-extends");
    auto last = c->end().circularbuffer_entry_; --last;
    v_assert(last->data == x && last->window_idx == end && last._M_node->_M_next == g_.head, "push_back.new-element-is-last");
    if (n == 0) { v_cover("into-empty"); v_assert(c->begin().circularbuffer_entry_ == last && *c->begin() == x, "push_back.into-empty"); }
    else {
        v_cover("append");
        auto pl = last; --pl;
        v_assert(pl._M_node == (NB*)(g_.nodes + (n - 1)) && pl._M_node->_M_next == last._M_node, "push_back.after-the-previous-last");
        v_assert(c->begin().circularbuffer_entry_._M_node == (NB*)g_.nodes, "push_back.first-element-unchanged");
    }
}
extern "C" void vh_circ_push_other() {      // any other element, its iterator and links
    C* c = any();
    uint64_t n = c->size(), cap = c->capacity(), x = v_u64("x"), j = v_u32("j");
    v_assume(n < cap && j < n);
    auto it = IT(c, j);
    uint64_t old = D(g_.nodes + j).data;
    v_assert(it.isValid() && *it == old, "iterator.of-present-element-is-valid");
    c->push_back(x);
    v_cover("pushed");
    v_assert(it.isValid() && *it == old, "push_back.iterators-stay-valid");
    v_assert(D(g_.nodes + j).window_idx == g_.start + j && g_.nodes[j]._M_prev == f_prev(j, nullptr), "push_back.others-unchanged");
    if (j + 1 < n) v_assert(g_.nodes[j]._M_next == f_next(j, nullptr), "push_back.others-keep-order");
}
// append to a full buffer
extern "C" void vh_circ_push_full() {
    C* c = any();
    uint64_t n = c->size(), cap = c->capacity(), x = v_u64("x"), j = v_u32("j");
    v_assume(n == cap && j < n);
    auto it = IT(c, j);
    uint64_t old = D(g_.nodes + j).data;
    c->push_back(x);
    v_assert(c->size() == n && inv_scalar(c), "push_back.full-keeps-size");
    auto last = c->end().circularbuffer_entry_; --last;
    v_assert(last->data == x && last._M_node->_M_next == g_.head, "push_back.full-new-element-is-last");
    v_assert(last->window_idx == c->end_idx_ - 1, "push_back.full-window");
    if (j == 0) { v_cover("oldest"); v_assert(!it.isValid(), "push_back.full-discards-the-oldest"); }
    else {
        v_cover("others");
        v_assert(it.isValid() && *it == old, "push_back.full-keeps-the-others");
        v_assert(D(g_.nodes + j).window_idx == g_.start + j, "push_back.full-others-unchanged");
        if (j > 1) v_assert(g_.nodes[j]._M_prev == (NB*)(g_.nodes + j - 1), "push_back.full-others-keep-order");
        else v_assert(c->begin().circularbuffer_entry_._M_node == (NB*)(g_.nodes + 1) && g_.nodes[1]._M_prev == g_.head, "push_back.full-second-becomes-first");
    }
}
// renumbering after erasing element k / inserting before it: ghost element j, loop stands at node p
static uint64_t rankErase(uint64_t i) { return i < g_.k ? i : i - 1; }
static bool eraseInv(void*, void* p) {
    C* c = g_.c;
    uint64_t v = p == (void*)g_.head ? g_.n : uint64_t((ND*)p - g_.nodes);
    return v != g_.k && v <= g_.n && c->end_idx_ == c->start_idx_ + rankErase(v) && c->start_idx_ == g_.start + g_.n + 1 &&
           D(g_.nodes + g_.j).window_idx == (g_.j < v ? c->start_idx_ + rankErase(g_.j) : g_.start + g_.j);
}
extern "C" void vh_circ_erase() {
    C* c = any();
    uint64_t n = c->size(), k = v_u32("erased"), j = v_u32("other");
    v_assume(k < n && j < n && j != k);
    g_.k = k; g_.j = j;
    v_invp(eraseInv, nullptr);
    auto it = IT(c, k); auto itj = IT(c, j); auto e = c->end();
    uint64_t old = D(g_.nodes + j).data;
    c->erase(it);
    v_cover("erased");
    v_assert(c->size() == n - 1 && inv_scalar(c), "erase.size-shrinks-by-one");
    v_assert(!it.isValid() && !itj.isValid() && !e.isValid(), "erase.invalidates-iterators");
    v_assert(D(g_.nodes + j).data == old, "erase.others-keep-value");
    v_assert(D(g_.nodes + j).window_idx == c->start_idx_ + rankErase(j), "erase.others-renumbered");
    NB* nx = j + 1 == k ? (NB*)f_next(k, nullptr) : (NB*)f_next(j, nullptr);
    v_assert(g_.nodes[j]._M_next == nx, "erase.others-keep-order");
    if (j + 1 == k) { v_cover("predecessor"); if (nx != g_.head) v_assert(nx->_M_prev == (NB*)(g_.nodes + j), "erase.closes-gap"); else v_assert(g_.head->_M_prev == (NB*)(g_.nodes + j), "erase.closes-gap-at-end"); }
    if (k == 0 && j == 1) { v_cover("first"); v_assert(g_.head->_M_next == (NB*)(g_.nodes + 1) && c->begin().isValid() && *c->begin() == old, "erase.first"); }
}
extern "C" void vh_circ_erase_only() {
    C* c = any();
    v_assume(c->size() == 1);
    auto it = c->begin();
    c->erase(it);
    v_assert(c->size() == 0 && !it.isValid() && c->begin() == c->end() && inv_scalar(c), "erase.only-element-leaves-empty");
}
static bool insInv(void*, void* p) {
    C* c = g_.c;
    NB* nw = g_.nodes[g_.k]._M_prev;           // the new node precedes element k
    bool atNew = p == (void*)nw;
    uint64_t v = p == (void*)g_.head ? g_.n : atNew ? g_.k : uint64_t((ND*)p - g_.nodes);
    uint64_t rank = atNew ? g_.k : v < g_.k ? v : v + 1;
    return v <= g_.n && c->start_idx_ == g_.start + g_.n + 1 && c->end_idx_ == c->start_idx_ + rank &&
           ((ND*)nw)->_M_valptr()->window_idx == ((!atNew && v >= g_.k) ? c->start_idx_ + g_.k : g_.start + g_.n) &&
           D(g_.nodes + g_.j).window_idx == ((g_.j < v) ? c->start_idx_ + (g_.j < g_.k ? g_.j : g_.j + 1) : g_.start + g_.j);
}
extern "C" void vh_circ_insert() {
    C* c = any();
    uint64_t n = c->size(), cap = c->capacity(), k = v_u32("before"), j = v_u32("other"), x = v_u64("x");
    v_assume(k < n && j < n && n < cap);
    g_.k = k; g_.j = j;
    v_invp(insInv, nullptr);
    auto itk = IT(c, k); auto itj = IT(c, j);
    uint64_t old = D(g_.nodes + j).data;
    auto it = c->insert(itk, x);
    v_cover("inserted");
    v_assert(c->size() == n + 1 && inv_scalar(c), "insert.size-grows-by-one");
    v_assert(it.isValid() && *it == x && it.window_idx_ == c->start_idx_ + k, "insert.returned-iterator-denotes-the-new-element");
    v_assert(D(g_.nodes + j).data == old && D(g_.nodes + j).window_idx == c->start_idx_ + (j < k ? j : j + 1), "insert.others-keep-value");
    NB* nw = it.circularbuffer_entry_._M_node;
    v_assert(nw->_M_next == (NB*)(g_.nodes + k) && g_.nodes[k]._M_prev == nw && nw->_M_prev == f_prev(k, nullptr), "insert.element-before-given-position");
    v_assert(g_.nodes[j]._M_next == (j + 1 == k ? (void*)nw : f_next(j, nullptr)), "insert.others-keep-order");
    v_assert(!itj.isValid() && !itk.isValid(), "insert.invalidates-iterators");
}
extern "C" void vh_circ_insert_rejected() {
    C* c = any();
    uint64_t n = c->size(), cap = c->capacity(), k = v_u32("before"), x = v_u64("x");
    v_assume(n > 0);
    bool stale = v_bool("stale");
    auto it = stale ? c->end() : IT(c, k);
    v_assume(stale || (k < n && n == cap));
    bool threw = false;
    try { c->insert(it, x); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw && c->size() == n && inv_scalar(c), "insert.rejected-when-full-or-invalid-changes-nothing");
    bool t2 = false;
    try { c->erase(c->end()); } catch (const sparta::SpartaException&) { t2 = true; }
    v_assert(t2 && c->size() == n, "erase.rejected-for-invalid-iterator");
}
extern "C" void vh_circ_insert_empty() {
    C* c = any();
    v_assume(c->size() == 0);
    uint64_t x = v_u64("x");
    auto it = c->insert(c->begin(), x);
    v_assert(c->size() == 1 && it.isValid() && *it == x && it == c->begin() && inv_scalar(c), "insert.into-empty");
}
extern "C" void vh_circ_iterate() {
    C* c = any();
    uint64_t n = c->size(), j = v_u32("j");
    v_assume(j < n);
    auto it = IT(c, j);
    auto k = it; ++k;
    if (j == 0) { v_cover("first"); v_assert(it == c->begin() && *c->begin() == D(g_.nodes).data, "iterate.begin-is-oldest"); }
    if (j + 1 == n) { v_cover("last"); v_assert(k == c->end() && k.circularbuffer_entry_ == c->end().circularbuffer_entry_ && !k.isValid(), "iterate.after-last-is-end"); }
    else { v_cover("middle"); v_assert(k.isValid() && *k == D(g_.nodes + j + 1).data && k != it && k.window_idx_ == it.window_idx_ + 1, "iterate.increment"); }
    --k;
    v_assert(k == it && *k == D(g_.nodes + j).data, "iterate.decrement-undoes-increment");
    C::const_iterator ci(it);
    v_assert(ci.isValid() && *ci == *it, "iterate.const");
    bool threw = false; auto b = c->begin();
    try { --b; } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw, "iterate.before-first-rejected");
}
extern "C" void vh_circ_validity() {      // any iterator ever handed out for window index w
    C* c = any();
    uint64_t w = v_u64("window_index");
    C::iterator it(c, std::_List_iterator<C::CircularBufferData>((NB*)g_.nodes), w);
    v_assert(it.isValid() == (w - c->start_idx_ < c->size()), "iterator.valid-exactly-while-in-the-window");
}

extern "C" void vh_circ_clear() {
    C* c = any();
    uint64_t n = c->size(), cap = c->capacity(), j = v_u32("j"), end = c->end_idx_;
    v_assume(j < n);
    auto it = IT(c, j);
    v_assert(it.isValid(), "clear.precondition-valid-iterator");
    c->clear();
    v_assert(c->size() == 0 && inv_scalar(c) && c->capacity() == cap && c->begin() == c->end(), "clear.empty");
    v_assert(c->circularbuffer_data_._M_impl._M_node._M_next == g_.head && c->circularbuffer_data_._M_impl._M_node._M_prev == g_.head, "clear.empty-list");
    v_assert(c->end_idx_ >= end, "clear.window-indices-are-never-reused");
    v_assert(!it.isValid(), "clear.invalidates-iterators");
}

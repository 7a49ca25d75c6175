// PROPERTY: P08
// ASSUME: Buffer capacity below 2^30; statistics and pipeline collection not attached
// ASSUME: std::unordered_map (address_map_) behaves as a map from uint32_t to uint32_t
// REPLACE: std::allocator<std::pair<unsigned int const, unsigned int>>>::operator[](unsigned int => st_map_at
// REPLACE: std::allocator<std::pair<unsigned int const, unsigned int>>>::erase(unsigned int const => st_map_erase
// REPLACE: std::allocator<std::pair<unsigned int const, unsigned int>>>::clear( => st_map_clear
#include "verif.h"
#include <cstddef>
#include "sparta/resources/Buffer.hpp"
using B = sparta::Buffer<uint64_t>;
using DP = B::DataPointer;
struct G { DP* pool; uint64_t n, nv; uint32_t* amap; uint64_t idx, j, sj; };
static G g_;
extern "C" {
uint32_t* st_map_at(void*, uint32_t* k) { return g_.amap + *k; }
uint64_t st_map_erase(void*, uint32_t*) { return 1; }
void st_map_clear(void*) {}
}
// ---- abstract pre-state: position i is stored in pool slot S(i); pidx is S's inverse; free slots are
// ranked 1..2n-nv along the free list, ranks above n are exactly the free slots below n
static uint64_t S(uint64_t i) { return v_uf("slot", i); }
static bool live(uint64_t s) { return v_uf("live", s) == 1; }
static uint64_t pidx(uint64_t s) { return v_uf("pidx", s); }
static uint64_t F(uint64_t r) { return v_uf("free", r); }
static uint64_t rank(uint64_t s) { return v_uf("rank", s); }
static void axS(uint64_t i) { v_assume(S(i) < g_.n && live(S(i)) && pidx(S(i)) == i); }
static void axF(uint64_t r) { v_assume(F(r) < 2 * g_.n && !live(F(r)) && rank(F(r)) == r && (F(r) < g_.n) == (r > g_.n)); }
static uint64_t nfree() { return 2 * g_.n - g_.nv; }
static void* f_map(uint64_t i, void*) { if (i < g_.nv) { axS(i); return g_.pool + S(i); } return nullptr; }
static uint64_t f_valid(uint64_t s, void*) { return live(s) ? 1 : 0; }
static uint64_t f_pidx(uint64_t s, void*) { return pidx(s); }
static void* f_data(uint64_t s, void*) { return live(s) ? g_.pool + s : nullptr; }
static void* f_next(uint64_t s, void*) {
    if (live(s)) return nullptr;
    uint64_t r = rank(s);
    v_assume(r >= 1 && r <= nfree() && F(r) == s);
    if (r == 1) return g_.pool + s;
    axF(r - 1);
    return g_.pool + F(r - 1);
}
static uint64_t f_amap(uint64_t i, void*) { if (i < g_.nv) { axS(i); return S(i); } return v_uf("amap_stale", i); }
static B* any() {
    B* b = v_obj<B>("b");
    uint64_t n = v_u32("capacity"), nv = v_u32("size");
    v_assume(n >= 1 && n < (1u << 30) && nv <= n);
    b->num_entries_ = n; b->num_valid_ = nv; b->data_pool_size_ = 2 * n;
    g_.n = n; g_.nv = nv;
    DP* pool = static_cast<DP*>(v_array("data_pool", 2 * n, sizeof(DP)));
    DP** map = static_cast<DP**>(v_array("buffer_map", n, sizeof(DP*)));
    uint32_t* val = static_cast<uint32_t*>(v_array("validator", n, 4));
    g_.amap = static_cast<uint32_t*>(v_array("address_map", n + 1, 4));
    g_.pool = pool;
    v_elem_ptr(map, 0, f_map, nullptr);
    v_elem_int(val, 0, 4, f_valid, nullptr);
    v_elem_int(pool, offsetof(DP, physical_idx), 4, f_pidx, nullptr);
    v_elem_ptr(pool, offsetof(DP, data), f_data, nullptr);
    v_elem_ptr(pool, offsetof(DP, next_free), f_next, nullptr);
    v_elem_int(g_.amap, 0, 4, f_amap, nullptr);
    b->buffer_map_._M_impl._M_start = map; b->buffer_map_._M_impl._M_finish = b->buffer_map_._M_impl._M_end_of_storage = map + n;
    b->data_pool_._M_impl._M_start = pool; b->data_pool_._M_impl._M_finish = b->data_pool_._M_impl._M_end_of_storage = pool + 2 * n;
    auto* v = v_obj<B::DataPointerValidator>("validator_obj");
    v->data_pool_ = &b->data_pool_;
    v->validator_._M_impl._M_start = val; v->validator_._M_impl._M_finish = v->validator_._M_impl._M_end_of_storage = val + n;
    new (&b->validator_) std::unique_ptr<B::DataPointerValidator>(v);
    new (&b->utilization_) decltype(b->utilization_)();
    new (&b->collector_) decltype(b->collector_)();
    b->is_infinite_mode_ = false;
    axF(nfree());
    b->free_position_ = pool + F(nfree());
    b->first_position_ = pool;
    return b;
}
// representation of position i in the post-state
static bool posOk(B* b, uint64_t i) {
    DP* d = b->buffer_map_[i];
    return d->physical_idx == i && b->validator_->isValid(d) && (void*)d->data == (void*)d && g_.amap[i] == uint64_t(d - g_.pool);
}
static B::iterator iterAt(B* b, uint64_t i) { axS(i); return B::iterator(b, g_.pool + S(i)); }

extern "C" void vh_buffer_push_back() {
    B* b = any();
    uint64_t x = v_u64("x"), n = b->size(), cap = b->capacity(), j = v_u32("j"), r = v_u32("r");
    v_assume(j < n);
    uint64_t old = b->read(j);
    auto itj = iterAt(b, j);
    v_assert(itj.isValid() && *itj == old, "iterator.of-present-element-is-valid");
    bool threw = false; B::iterator it;
    DP* f = b->free_position_;
    try { it = b->push_back(x); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (n == cap), "push_back.rejected-exactly-when-full");
    if (threw) { v_cover("full"); v_assert(b->size() == n && b->free_position_ == f, "push_back.rejected-changes-nothing"); return; }
    v_cover("appended");
    v_assert(b->size() == n + 1 && b->capacity() == cap && b->numFree() == cap - n - 1, "push_back.size-grows-by-one");
    v_assert(b->read(n) == x && b->access(n) == x && b->accessBack() == x, "push_back.new-element-is-last");
    v_assert(b->read(j) == old, "push_back.others-unchanged");
    v_assert(itj.isValid() && *itj == old, "push_back.iterators-stay-valid");
    v_assert(it.isValid() && *it == x, "push_back.returned-iterator");
    v_assert(posOk(b, n) && posOk(b, j), "push_back.invariant-positions");
    v_assume(r >= 1 && r < 2 * cap - n); axF(r);
    v_assert(b->validator_->validator_.size() == cap && b->free_position_ == g_.pool + F(2 * cap - n - 1), "push_back.invariant-free-list");
    v_assert(g_.pool[F(r)].next_free == g_.pool + (r > 1 ? F(r - 1) : F(r)), "push_back.invariant-free-chain");
    v_assert(g_.pool + F(r) != it.buffer_entry_, "push_back.invariant-used-slot-not-free");
}
static bool insInv(void*, uint64_t v) {   // positions above the loop variable have been moved back by one
    return g_.pool[g_.sj].physical_idx == (g_.j >= v ? g_.j + 1 : g_.j) && g_.pool[F(nfree())].physical_idx == g_.idx;
}
extern "C" void vh_buffer_insert() {
    B* b = any();
    uint64_t x = v_u64("x"), n = b->size(), cap = b->capacity(), j = v_u32("j"), r = v_u32("r");
    uint32_t idx = v_u32("idx");
    v_assume(j < n);
    uint64_t old = b->read(j);
    auto itj = iterAt(b, j);
    g_.j = j; g_.sj = S(j); g_.idx = idx;
    v_assume(g_.pool[g_.sj].physical_idx == j);
    v_inv(insInv, nullptr, 1);
    bool threw = false; B::iterator it;
    try { it = b->insert(idx, x); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (n == cap || idx > n), "insert.rejected-exactly-when-full-or-beyond-end");
    if (threw) { v_cover("rejected"); v_assert(b->size() == n && b->read(j) == old, "insert.rejected-changes-nothing"); return; }
    v_cover("inserted");
    v_assert(b->size() == n + 1, "insert.size-grows-by-one");
    v_assert(b->read(idx) == x && it.isValid() && *it == x, "insert.element-at-given-position");
    uint64_t nj = j < idx ? j : j + 1;
    v_assert(b->read(nj) == old, "insert.others-keep-order");
    v_assert(itj.isValid() && *itj == old, "insert.iterators-stay-valid");
    v_assert(b->buffer_map_[nj]->physical_idx == nj && b->buffer_map_[nj] == itj.buffer_entry_, "insert.iterator-position-follows-element");
    v_assert(b->buffer_map_[idx]->physical_idx == idx, "insert.new-position");
    v_assert(g_.amap[nj] == uint64_t(b->buffer_map_[nj] - g_.pool) && g_.amap[idx] == uint64_t(b->buffer_map_[idx] - g_.pool), "insert.growth-map-agrees-with-positions");
}
extern "C" void vh_buffer_insert_free() {
    B* b = any();
    uint64_t n = b->size(), cap = b->capacity(), r = v_u32("r");
    uint32_t idx = v_u32("idx");
    v_assume(n < cap && idx <= n && r >= 1 && r < 2 * cap - n);
    axF(r);
    DP *head = b->free_position_, *fr = g_.pool + F(r), *nx = fr->next_free;
    b->insert(idx, uint64_t(7));
    v_cover("inserted");
    v_assert(b->free_position_ == g_.pool + F(2 * cap - n - 1) && b->free_position_ != head, "insert.invariant-free-list");
    v_assert(fr->next_free == nx, "insert.invariant-free-chain");
}
extern "C" void vh_buffer_insert_empty() {
    B* b = any();
    v_assume(b->size() == 0);
    uint64_t x = v_u64("x");
    bool pb = v_bool("push_back");
    auto it = pb ? b->push_back(x) : b->insert(b->end().isValid() ? 1 : 0, x);
    v_assert(b->size() == 1 && b->read(0) == x && it == b->begin() && *it == x && posOk(b, 0), "insert.into-empty");
    v_assert(++it == b->end(), "insert.into-empty-end");
}
static bool eraInv(void*, uint64_t v) {   // positions in (idx, v] have been moved forward by one
    return g_.pool[g_.sj].physical_idx == ((g_.j > g_.idx && g_.j <= v) ? g_.j - 1 : g_.j);
}
extern "C" void vh_buffer_erase() {
    B* b = any();
    uint64_t n = b->size(), cap = b->capacity(), j = v_u32("j"), r = v_u32("r");
    uint32_t idx = v_u32("idx");
    v_assume(j < n && j != idx);
    uint64_t old = b->read(j);
    auto itj = iterAt(b, j);
    g_.j = j; g_.sj = S(j); g_.idx = idx;
    v_assume(g_.pool[g_.sj].physical_idx == j);
    if (idx < n) axS(idx);
    B::iterator ite(b, g_.pool + S(idx));
    v_inv(eraInv, nullptr, 1);
    bool threw = false;
    try { b->erase(idx); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (idx >= n), "erase.rejected-exactly-when-out-of-range");
    if (threw) { v_cover("rejected"); v_assert(b->size() == n && b->read(j) == old, "erase.rejected-changes-nothing"); return; }
    v_cover("erased");
    v_assert(b->size() == n - 1, "erase.size-shrinks-by-one");
    uint64_t nj = j < idx ? j : j - 1;
    v_assert(b->read(nj) == old, "erase.closes-gap-keeps-order");
    v_assert(itj.isValid() && *itj == old, "erase.iterators-to-others-stay-valid");
    v_assert(b->buffer_map_[nj]->physical_idx == nj && b->buffer_map_[nj] == itj.buffer_entry_, "erase.iterator-position-follows-element");
    v_assert(!ite.isValid(), "erase.invalidates-erased-iterator");
    v_assert(b->buffer_map_[n - 1] == nullptr, "erase.last-position-vacant");
    v_assert(g_.amap[nj] == uint64_t(b->buffer_map_[nj] - g_.pool), "erase.growth-map-agrees-with-positions");
}
extern "C" void vh_buffer_erase_free() {
    B* b = any();
    uint64_t n = b->size(), cap = b->capacity(), r = v_u32("r");
    uint32_t idx = v_u32("idx");
    v_assume(idx < n && r >= 1 && r <= 2 * cap - n);
    axS(idx); axF(r);
    DP *head = b->free_position_, *fr = g_.pool + F(r), *nx = fr->next_free;
    b->erase(idx);
    v_cover("erased");
    v_assert(b->free_position_ == g_.pool + S(idx) && b->free_position_->next_free == head, "erase.invariant-free-list");
    v_assert(fr->next_free == nx && F(r) != S(idx), "erase.invariant-free-chain");
}
extern "C" void vh_buffer_erase_only() {
    B* b = any();
    v_assume(b->size() == 1);
    b->erase(0u);
    v_assert(b->size() == 0 && b->empty() && b->begin() == b->end(), "erase.last-element-leaves-empty");
}
extern "C" void vh_buffer_iterate() {
    B* b = any();
    uint64_t n = b->size(), j = v_u32("j");
    v_assume(j < n);
    auto it = iterAt(b, j);
    v_assert(it.isValid() && *it == b->read(j) && b->read(B::const_iterator(it)) == b->read(j), "iterate.element-at-position");
    if (j == 0) { v_cover("first"); v_assert(it == b->begin(), "iterate.begin-is-first"); }
    auto k = it; ++k;
    if (j + 1 == n) { v_cover("last"); v_assert(k == b->end(), "iterate.after-last-is-end"); }
    else { axS(j + 1); v_assert(k == iterAt(b, j + 1) && *k == b->read(j + 1), "iterate.increment"); v_assert(it < k && k > it && it != k, "iterate.order"); }
    --k;
    v_assert(k == it, "iterate.decrement-undoes-increment");
}
extern "C" void vh_buffer_reads() {
    B* b = any();
    uint32_t i = v_u32("i");
    bool t1 = false, t2 = false;
    try { (void)b->read(i); } catch (const sparta::SpartaException&) { t1 = true; }
    try { (void)b->access(i); } catch (const sparta::SpartaException&) { t2 = true; }
    v_assert(t1 == (i >= b->size()) && t2 == t1 && b->isValid(i) == !t1, "read.rejected-exactly-when-out-of-range");
    v_assert(b->numFree() == b->capacity() - b->size() && b->empty() == (b->size() == 0), "queries.agree-with-size");
}

// PROPERTY: P20
// ASSUME: StringManager only interns descriptions
// ASSUME: log2 of a power of two is exact (libm)
// REPLACE: =log2 => st_log2
// REPLACE: sparta::StringManager::getStringManager() => st_sm
// REPLACE: sparta::StringManager::internString => st_intern
#include "verif.h"
#include <exception>
#include <memory>
#include "sparta/memory/BlockingMemoryIF.hpp"
#include "sparta/memory/DMIBlockingMemoryIF.hpp"
#include "sparta/memory/SimpleMemoryMap.hpp"
using namespace sparta; using namespace sparta::memory;
static std::string* nothing_;
static double log2_;
extern "C" { double st_log2(double) { return log2_; } void* st_sm() { return nullptr; } const std::string* st_intern(void*, const void*) { return nothing_; } }
struct H { uint64_t calls, addr, size, next, bad, fail; const uint8_t* buf; const void *in, *out; uint64_t mask; uint8_t kind; const uint8_t* base; uint64_t a0; };
static H h_;
struct Mem : BlockingMemoryIF {
    Mem(addr_t bs, addr_t s, addr_t e) : BlockingMemoryIF("", bs, AccessWindow(s, e)) {}
    bool rec(int k, addr_t a, addr_t n, const uint8_t* b, const void* i, const void* o) const { h_.calls = h_.calls + 1; h_.kind = k; h_.addr = a; h_.size = n; h_.buf = b; h_.in = i; h_.out = o; return h_.fail == 0; }
    bool tryRead_(addr_t a, addr_t n, uint8_t* b, const void* i, void* o) override { return rec(1, a, n, b, i, o); }
    bool tryWrite_(addr_t a, addr_t n, const uint8_t* b, const void* i, void* o) override { return rec(2, a, n, b, i, o); }
    bool tryPeek_(addr_t a, addr_t n, uint8_t* b) const override { return piece(a, n, b); }
    bool tryPoke_(addr_t a, addr_t n, const uint8_t* b) override { return piece(a, n, b); }
    // pieces of a peek or poke: consecutive, each inside one block, each at its own place of the buffer
    bool piece(addr_t a, addr_t n, const uint8_t* b) const {
        h_.calls = h_.calls + 1;
        h_.bad = h_.bad | (a != h_.next) | (n == 0) | ((a & h_.mask) != ((a + n - 1) & h_.mask)) | (b != h_.base + (a - h_.a0));
        h_.next = h_.next + n;
        return true;
    }
};
template <class M> static M* set(M* m) {
    unsigned k = v_u8("log2 block size"); uint64_t s = v_u64("window start"), e = v_u64("window end");
    v_assume(k < 64);
    uint64_t bs = 1ull << k;
    v_assume((s < e) & ((s & (bs - 1)) == 0) & ((e & (bs - 1)) == 0));
    h_.calls = 0; h_.fail = v_u8("refused by the device") & 1; h_.mask = ~(bs - 1); h_.bad = 0;
    *const_cast<addr_t*>(&m->block_size_) = bs; m->block_mask_ = ~(bs - 1); m->block_idx_lsb_ = k;
    *const_cast<addr_t*>(&m->acc_windows_[0].start) = s; *const_cast<addr_t*>(&m->acc_windows_[0].end) = e;
    m->total_range_ = m->accessible_size_ = e - s; m->low_end_ = s; m->high_end_ = e;
    return m;
}
static Mem* any() { log2_ = 6; return set(new Mem(64, 0, 64)); }
static bool inWin(Mem* m, uint64_t a, uint64_t n) { return (a >= m->low_end_) & (a <= m->high_end_) & (n <= m->high_end_ - a); }       // no wrap around
static bool spans(uint64_t a, uint64_t n) { return (n != 0) & ((a & ~h_.mask) + (n - 1) > ~h_.mask) | ((n != 0) & (n - 1 > ~h_.mask)); }
extern "C" void vh_construct() {
    unsigned k = v_u8("log2 block size"); uint64_t s = v_u64("window start"), e = v_u64("window end");
    v_assume(k < 64);
    uint64_t bs = 1ull << k; log2_ = k;
    bool ok = s < e && (s & (bs - 1)) == 0 && (e & (bs - 1)) == 0;
    Mem* m;
    try { m = new Mem(bs, s, e); } catch (...) { v_cover("refused"); v_assert(!ok, "window.refused-only-when-empty-or-unaligned"); return; }
    v_cover("constructed");
    v_assert(ok, "window.empty-or-unaligned-refused");
    v_assert(m->getBlockSize() == bs && m->block_mask_ == ~(bs - 1) && m->getLowEnd() == s && m->getHighEnd() == e && m->getRange() == e - s, "window.as-given");
}

extern "C" void vh_checks() {
    Mem* m = any();
    uint64_t a = v_u64("addr"), n = v_u64("size");
    v_assume(n > 0);
    v_assert(m->isInAccessWindows(a, n) == inWin(m, a, n), "window.whole-access-inside");
    v_assert(m->doesAccessSpan(a, n) == spans(a, n) || n - 1 > ~h_.mask, "span.crosses-a-block-boundary");
    v_assert(m->isAddressInWindows(a) == inWin(m, a, 1), "window.address-inside");
    bool t1 = false, t2 = false;
    try { m->verifyInAccessWindows(a, n); } catch (...) { t1 = true; }
    try { m->verifyNoBlockSpan(a, n); } catch (...) { t2 = true; }
    v_assert(t1 == !inWin(m, a, n) && t2 == m->doesAccessSpan(a, n), "verify.rejects-exactly-the-others");
    v_cover("checked");
}
extern "C" void vh_access() {
    Mem* m = any();
    uint64_t a = v_u64("addr"), n = v_u64("size");
    uint8_t* b = v_obj<uint8_t>("buffer"); int* in = v_obj<int>("in"); int* out = v_obj<int>("out");
    v_assume(n > 0);
    bool wr = v_bool("write");
    bool ok = inWin(m, a, n) & !spans(a, n);
    bool r = wr ? m->tryWrite(a, n, b, in, out) : m->tryRead(a, n, b, in, out);
    if (!ok) { v_cover("refused"); v_assert(!r && h_.calls == 0, "access.crossing-a-block-or-outside-the-window-touches-nothing"); return; }
    v_cover("accepted");
    v_assert(h_.calls == 1 && h_.kind == (wr ? 2 : 1) && h_.addr == a && h_.size == n && h_.buf == b && h_.in == in && h_.out == out && r == !h_.fail, "access.reaches-the-device-once");
}
extern "C" void vh_access_throwing() {
    Mem* m = any();
    uint64_t a = v_u64("addr"), n = v_u64("size");
    uint8_t* b = v_obj<uint8_t>("buffer");
    v_assume(n > 0);
    bool ok = inWin(m, a, n) & !spans(a, n), threw = false, wr = v_bool("write");
    try { if (wr) m->write(a, n, b); else m->read(a, n, b); } catch (...) { threw = true; }
    v_assert(threw == (!ok || h_.fail) && h_.calls == (ok ? 1 : 0), "access.throwing-form-throws-exactly-when-refused");
    if (threw) v_cover("thrown"); else v_cover("done");
}
static bool pieces(void*, uint64_t a) { return (h_.bad == 0) & (a == h_.next) & (h_.next >= h_.a0); }
static bool inside(void* m, uint64_t a) { return (h_.next - h_.a0 < ((uint64_t*)m)[1]) & (h_.next - h_.a0 <= h_.next); }
static bool at(void*, void* p, uint64_t a) { return (const uint8_t*)p == h_.base + (a - h_.a0); }
template <class F> static void peeks(F call) {
    Mem* m = any();
    uint64_t a = h_.a0 = h_.next = v_u64("addr"), n = v_u64("size");
    uint8_t* b = (uint8_t*)v_array("buffer", n, 1); h_.base = b;
    v_assume(n > 0 && n < (1ull << 62));
    uint64_t* q = (uint64_t*)v_raw("q", 16); q[1] = n;
    v_inv(pieces, nullptr, 1); v_inv(inside, q, 1); v_invpi(at, nullptr);
    bool in = inWin(m, a, n), r = call(m, a, n, b);
    if (!in) { v_cover("refused"); v_assert(!r && h_.calls == 0, "peek.outside-the-window-touches-nothing"); return; }
    v_cover("done");
    v_assert(r && h_.bad == 0 && h_.next == a + n, "peek.every-byte-once-in-block-pieces");
}
// ENTRY: vh_peek lean=1
extern "C" void vh_peek() { peeks([](Mem* m, uint64_t a, uint64_t n, uint8_t* b) { return m->tryPeek(a, n, b); }); }
// ENTRY: vh_poke lean=1
extern "C" void vh_poke() { peeks([](Mem* m, uint64_t a, uint64_t n, uint8_t* b) { return m->tryPoke(a, n, b); }); }
// ------------------------------------------------------------------ mappings
static SimpleMemoryMap::Mapping* mapping() {
    auto* m = v_obj<SimpleMemoryMap::Mapping>("mapping");
    v_assume(m->start < m->end);
    return m;
}
extern "C" void vh_mapping() {
    auto* m = mapping();
    uint64_t a = v_u64("a"), b = v_u64("b"), x = v_u64("x");
    v_assume(a < b);
    bool in = m->start <= x && x < m->end, both = in && a <= x && x < b;
    v_assert(m->contains(x) == in, "mapping.contains-its-range");
    v_assert(!both || m->overlaps(a, b), "mapping.overlap-detected");
    v_assert(m->overlaps(a, b) == (a < m->end && b > m->start), "mapping.overlap-exactly-when-ranges-meet");
    v_assert(m->mapAddress(x) == m->dest_off + (x - m->start), "mapping.corresponding-address");
    v_cover("checked");
}
// a search tree of n nodes, in order of their keys; node i spans positions [lo, hi) with its subtree
using BN = SimpleMemoryMap::BinTreeNode; using MP = SimpleMemoryMap::Mapping;
struct T { BN* nodes; MP* maps; uint64_t n, addr, t; BlockingMemoryIF* dev; };
static T t_;
static bool leaf(uint64_t i) { return (v_uf("isMapping", i) & 1) == 1; }
static uint64_t lo(uint64_t i) { return (uint32_t)v_uf("lo", i); }
static uint64_t hi(uint64_t i) { return (uint32_t)v_uf("hi", i); }
static uint64_t left(uint64_t i) { return (uint32_t)v_uf("left", i); }
static uint64_t right(uint64_t i) { return (uint32_t)v_uf("right", i); }
static uint64_t first(uint64_t i) { return v_uf("start", i); }     // node = its position in key order; separators have start == end
static uint64_t last(uint64_t i) { return leaf(i) ? v_uf("end", i) : v_uf("start", i); }
// facts about one node, and the order of two nodes
static void node(uint64_t i) {
    uint64_t L = left(i), R = right(i), t = t_.t;
    v_assume((i >= t_.n) | (((lo(i) <= i) & (i < hi(i)) & (hi(i) <= t_.n))
        & ((L < t_.n) == (lo(i) < i)) & ((R < t_.n) == (i + 1 < hi(i)))
        & ((L >= t_.n) | ((lo(L) == lo(i)) & (hi(L) == i))) & ((R >= t_.n) | ((lo(R) == i + 1) & (hi(R) == hi(i))))
        & (!leaf(i) | (first(i) < last(i)))
        & ((i >= t) | ((t >= t_.n) | (last(i) <= first(t)))) & ((i <= t) | ((t >= t_.n) | (last(t) <= first(i))))));
}
static void* f_left(uint64_t i, void*) { uint64_t k = left(i); return k < t_.n ? (void*)(t_.nodes + k) : nullptr; }
static void* f_right(uint64_t i, void*) { uint64_t k = right(i); return k < t_.n ? (void*)(t_.nodes + k) : nullptr; }
static void* f_dest(uint64_t i, void*) { node(i); return leaf(i) ? (void*)(t_.maps + i) : nullptr; }
static uint64_t f_sep(uint64_t i, void*) { return leaf(i) ? ~0ull : first(i); }
static uint64_t f_start(uint64_t i, void*) { return first(i); }
static uint64_t f_end(uint64_t i, void*) { return last(i); }
static uint64_t f_off(uint64_t i, void*) { return v_uf("dest", i); }
static void* f_dev(uint64_t i, void*) { return t_.dev; }
static SimpleMemoryMap* tree() {
    auto* s = v_obj<SimpleMemoryMap>("map");
    t_.n = v_u32("nodes"); v_assume(t_.n < (1u << 31));
    t_.addr = v_u64("addr"); t_.t = v_u32("target"); t_.dev = nullptr;
    BN* a = t_.nodes = (BN*)v_array("tree", t_.n, sizeof(BN));
    MP* m = t_.maps = (MP*)v_array("mappings", t_.n, sizeof(MP));
    v_elem_int(a, offsetof(BN, separator), 8, f_sep, nullptr);
    v_elem_ptr(a, offsetof(BN, l), f_left, nullptr); v_elem_ptr(a, offsetof(BN, r), f_right, nullptr); v_elem_ptr(a, offsetof(BN, dest), f_dest, nullptr);
    v_elem_int(m, 0, 8, f_start, nullptr); v_elem_int(m, 8, 8, f_end, nullptr); v_elem_int(m, 16, 8, f_off, nullptr); v_elem_ptr(m, 24, f_dev, nullptr);
    uint64_t root = v_u32("root");
    v_assume(t_.n == 0 || root < t_.n);
    if (t_.n) { node(root); v_assume(lo(root) == 0 && hi(root) == t_.n); }
    s->bintree_ = t_.n ? a + root : nullptr;
    node(t_.t);
    return s;
}
// the node covering the target is in the subtree the search stands at (the search stops only there)
static bool down(void*, void* p) {
    if (p == nullptr) return t_.t >= t_.n;
    uint64_t i = (BN*)p - t_.nodes;
    return (i < t_.n) & ((t_.t >= t_.n) | ((lo(i) <= t_.t) & (t_.t < hi(i))));
}
template <class F> static void mapped(F find) {       // some mapping t contains the address: that one is found
    auto* s = tree();
    v_assume(t_.t < t_.n && leaf(t_.t) && first(t_.t) <= t_.addr && t_.addr < last(t_.t));
    v_invp(down, nullptr);
    const MP* m = find(s);
    v_cover("found");
    v_assert(m == t_.maps + t_.t, "find.the-mapping-containing-the-address");
}
extern "C" void vh_find_mapped() { mapped([](SimpleMemoryMap* s) { return s->findMapping(t_.addr); }); }
extern "C" void vh_find_mapped_const() { mapped([](const SimpleMemoryMap* s) { return s->findMapping(t_.addr); }); }
template <class F> static void unmapped(F find) {    // whatever is found contains the address (so nothing is found when no mapping does)
    auto* s = tree();
    const MP* m = find(s);
    if (m == nullptr) { v_cover("none"); return; }
    v_cover("some");
    v_assert(m->contains(t_.addr), "find.only-a-mapping-containing-the-address");
}
extern "C" void vh_find_only() { unmapped([](SimpleMemoryMap* s) { return s->findMapping(t_.addr); }); }
extern "C" void vh_find_only_const() { unmapped([](const SimpleMemoryMap* s) { return s->findMapping(t_.addr); }); }

static bool stays(void*, void* p) { return down(nullptr, p); }
extern "C" void vh_verify_mapped() {
    auto* s = tree();
    uint64_t n = v_u64("size");
    bool ok = true;
    v_assume(n > 0 && t_.addr + n > t_.addr);
    bool m = v_bool("mapped");
    if (m) { v_assume(t_.t < t_.n && leaf(t_.t) && first(t_.t) <= t_.addr && t_.addr < last(t_.t)); }
    else v_assume(t_.n == 0);
    v_invp(down, nullptr);
    try { s->verifyHasMapping(t_.addr, n); } catch (...) { ok = false; }
    v_assert(ok == (m && t_.addr + n <= last(t_.t)), "verify.exactly-when-one-mapping-holds-the-access");
    if (ok) v_cover("held"); else v_cover("rejected");
}
// overlapping mappings are refused, and nothing changes
struct O { MP* maps; uint64_t n, g, a, b; };
static O o_;
static uint64_t o_start(uint64_t i, void*) { return v_uf("mstart", i); }
static uint64_t o_end(uint64_t i, void*) { return v_uf("mend", i); }
static void* o_map(uint64_t i, void*) { return o_.maps + i; }
static bool beyond(void*, uint64_t i) { return o_.g >= i; }
extern "C" void vh_overlap_refused() {
    auto* s = v_obj<SimpleMemoryMap>("map");
    o_.n = v_u32("mappings"); o_.g = v_u32("overlapped"); o_.a = v_u64("start"); o_.b = v_u64("end");
    v_assume(o_.n < (1u << 31) && o_.g < o_.n && o_.a < o_.b);
    o_.maps = (MP*)v_array("maps", o_.n, sizeof(MP));
    v_elem_int(o_.maps, 0, 8, o_start, nullptr); v_elem_int(o_.maps, 8, 8, o_end, nullptr);
    MP** v = (MP**)v_array("vector", o_.n, 8); v_elem_ptr(v, 0, o_map, nullptr);
    *(MP***)&s->mappings_ = v; ((MP***)&s->mappings_)[1] = v + o_.n; ((MP***)&s->mappings_)[2] = v + o_.n;
    uint64_t gs = o_start(o_.g, nullptr), ge = o_end(o_.g, nullptr);
    v_assume(gs < ge && o_.a < ge && gs < o_.b);
    Mem* m = any(); m->block_size_;
    BN* root = s->bintree_ = v_bool("empty tree") ? nullptr : v_obj<BN>("root"); uint32_t nm = s->num_mappings_;
    v_inv(beyond, nullptr, 1);
    bool refused = false;
    try { s->addMapping(o_.a, o_.b, m, v_u64("dest")); } catch (...) { refused = true; }
    v_cover("refused");
    v_assert(refused && s->bintree_ == root && s->num_mappings_ == nm && s->mappings_.size() == o_.n, "add.overlapping-mapping-refused");
}
// rotations keep the order of the tree
extern "C" void vh_rotate() {
    auto* s = v_obj<SimpleMemoryMap>("map");
    BN *n = v_obj<BN>("n"), *p = v_obj<BN>("pivot"), *up = v_bool("is root") ? nullptr : v_obj<BN>("parent"), *mid = v_bool("no inner child") ? nullptr : v_obj<BN>("inner"), *a = v_obj<BN>("a"), *c = v_obj<BN>("c"), *sib = v_obj<BN>("sibling");
    bool leftChild = v_bool("left child"), L = v_bool("left");
    n->parent = up; p->parent = n;
    if (up) { up->l = leftChild ? n : sib; up->r = leftChild ? sib : n; }
    if (mid) mid->parent = p;
    s->bintree_ = up ? sib : n;
    if (L) { n->l = a; n->r = p; p->l = mid; p->r = c; s->rotateLeft_(n); v_cover("left"); }
    else { n->r = a; n->l = p; p->r = mid; p->l = c; s->rotateRight_(n); v_cover("right"); }
    if (L) v_assert(n->l == a && n->r == mid && p->l == n && p->r == c, "rotate.left-keeps-order");
    else v_assert(n->r == a && n->l == mid && p->r == n && p->l == c, "rotate.right-keeps-order");
    v_assert(n->parent == p && p->parent == up && (!mid || mid->parent == n), "rotate.parents");
    if (up) v_assert((leftChild ? up->l == p && up->r == sib : up->r == p && up->l == sib) && s->bintree_ == sib, "rotate.stays-in-place"); else v_assert(s->bintree_ == p, "rotate.new-root");
}

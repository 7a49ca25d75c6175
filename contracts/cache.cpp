// PROPERTY: P22
// ASSUME: floor_log2 is used through its contract (P18); line size and stride are powers of two and the number of sets comes out as a power of two
// REPLACE: unsigned long sparta::utils::floor_log2<unsigned long>(unsigned long) => st_fl64
// REPLACE: sparta::cache::LineData::read(unsigned long, unsigned int, unsigned char*) => st_read
// REPLACE: sparta::cache::LineData::write(unsigned long, unsigned int, unsigned char const*) => st_write
#include "verif.h"
#include <vector>
#include <list>
#include <memory>
#include <cstring>
#include <cstddef>
#include <cassert>
#include "sparta/utils/SpartaAssert.hpp"
#include "sparta/utils/MathUtils.hpp"
#include "cache/DefaultAddrDecoder.hpp"
#include "cache/LineData.hpp"
#include "cache/BasicCacheSet.hpp"
#include "cache/Cache.hpp"
#include "cache/ReplacementIF.hpp"
#include "cache/SimpleCache2.hpp"
#include "cache/SimpleCache.hpp"
#include "cache/LRUReplacement.hpp"
#include "cache/TreePLRUReplacement.hpp"
using namespace sparta;
using namespace sparta::cache;
extern "C" uint64_t st_fl64(uint64_t x) { v_assert(x != 0, "floor_log2.requires-nonzero"); uint64_t r = v_uf("fl", x); v_assume((r < 64) & ((x >> (r & 63)) == 1)); return r; }
// ------------------------------------------------------------------ address decoding
extern "C" void vh_decode() {
    uint64_t sz = v_u64("size"), ways = v_u32("ways");
    unsigned a = v_u8("log2 line"), b = v_u8("log2 stride"), c = v_u8("log2 sets");
    bool kb = v_bool("kb");
    v_assume(ways >= 1 && a < 24 && b < 24 && c < 31 && sz < (1ull << 48));
    uint64_t line = 1ull << a, stride = 1ull << b, bytes = kb ? sz * 1024 : sz;
    v_assume(bytes / (line * (uint32_t)ways) == (1ull << c));
    DefaultAddrDecoder d(sz, line, stride, (uint32_t)ways, kb);
    uint64_t x = v_u64("addr"), y = v_u64("addr2");
    uint32_t i = d.calcIdx(x);
    v_assert(i < (1ull << c) && i == ((x >> b) & ((1ull << c) - 1)), "decode.set-index");
    v_assert(d.calcTag(x) == x >> (b + c), "decode.tag");
    v_assert(d.calcBlockOffset(x) == (x & (line - 1)) && d.calcBlockAddr(x) == (x & ~(line - 1)), "decode.offset-and-block");
    if (b <= a) v_assert(x == y || d.calcTag(x) != d.calcTag(y) || d.calcIdx(x) != d.calcIdx(y) || d.calcBlockOffset(x) != d.calcBlockOffset(y), "decode.no-two-addresses-alike");
    if (b >= a) v_assert(d.calcBlockAddr(x) != d.calcBlockAddr(y) || (d.calcTag(x) == d.calcTag(y) && d.calcIdx(x) == d.calcIdx(y)), "decode.one-block-one-line");
    v_cover("decoded");
}
// ------------------------------------------------------------------ one set of n ways, arbitrary contents
struct Rec : ReplacementIF {          // the policy through its interface
    uint32_t victim, mru, lru; uint32_t touches;
    Rec() : ReplacementIF(1) {}
    void reset() override {} ReplacementIF* clone() const override { return nullptr; }
    void touchLRU(uint32_t w) override { lru = w; ++touches; } void touchLRU(uint32_t, const std::vector<uint32_t>&) override {}
    void touchMRU(uint32_t w) override { mru = w; ++touches; } void touchMRU(uint32_t, const std::vector<uint32_t>&) override {}
    void lockWay(uint32_t) override {} uint32_t getLRUWay() const override { return victim; } uint32_t getLRUWay(const std::vector<uint32_t>&) override { return 0; }
    uint32_t getMRUWay() const override { return 0; } uint32_t getMRUWay(const std::vector<uint32_t>&) override { return 0; }
};
struct L : LineDataWithNT { using LineDataWithNT::LineDataWithNT; using LineData::reset; using LineDataWithNT::reset; };
typedef CacheSetWithNT<L> SET;
struct G { L* w; uint64_t n, g, tag; uint32_t set; Rec* rep; };
static G g_;
static bool valid(uint64_t i) { return (v_uf("valid", i) & 1) == 1; }
static uint64_t tag(uint64_t i) { return v_uf("tag", i); }
static uint64_t f_valid(uint64_t i, void*) { return valid(i); }
static uint64_t f_tag(uint64_t i, void*) { return tag(i); }
static uint64_t f_way(uint64_t i, void*) { return i; }
static uint64_t f_set(uint64_t, void*) { return g_.set; }
static const AddrDecoderIF* dec_;
static void* f_dec(uint64_t, void*) { return (void*)dec_; }
static const AddrDecoderIF* decoder() {
    DefaultAddrDecoder* d = new DefaultAddrDecoder(64, 64, 64, 1, true);
    uint32_t a = v_u8("log2 line"), c = v_u8("log2 sets"); v_assume(a < 32 && c < 31);
    d->blk_offset_mask_ = (1ull << a) - 1; d->blk_addr_mask_ = ~d->blk_offset_mask_; d->index_shift_ = a; d->index_mask_ = (1u << c) - 1; d->tag_shift_ = a + c;
    return d;
}
static void ways(SET* s) {
    g_.n = v_u32("ways"); v_assume(g_.n >= 1 && g_.n < (1u << 24));
    g_.g = v_u64("g"); v_assume(g_.g < g_.n);
    g_.set = v_u32("set");
    dec_ = decoder();
    g_.w = (L*)v_array("ways", g_.n, sizeof(L));
    v_elem_int(g_.w, offsetof(L, valid_), 1, f_valid, nullptr);
    v_elem_int(g_.w, offsetof(L, tag_), 8, f_tag, nullptr);
    v_elem_int(g_.w, offsetof(L, way_num_), 4, f_way, nullptr);
    v_elem_int(g_.w, offsetof(L, set_idx_), 4, f_set, nullptr);
    v_elem_ptr(g_.w, offsetof(L, addr_decoder_), f_dec, nullptr);
    s->ways_._M_impl._M_start = g_.w; s->ways_._M_impl._M_finish = s->ways_._M_impl._M_end_of_storage = g_.w + g_.n;
    s->num_ways_ = g_.n; s->set_idx_ = g_.set;
    g_.rep = v_obj<Rec>("policy"); new (g_.rep) Rec; g_.rep->victim = v_u32("victim"); v_assume(g_.rep->victim < g_.n);
    g_.rep->touches = 0; s->replacement_policy_ = g_.rep;
}
static bool hitInv(void*, uint64_t i) { return (g_.g >= i) | !(valid(g_.g) & (tag(g_.g) == g_.tag)); }
static bool openInv(void*, uint64_t i) { return (g_.g >= i) | valid(g_.g); }
static bool coldInv(void* c, uint64_t i) { return ((g_.g >= i) | valid(g_.g) | (*(bool*)c)) ; }
extern "C" void vh_lookup() {
    SET* s = v_obj<SET>("set"); ways(s);
    g_.tag = v_u64("tag");
    v_inv(hitInv, nullptr, 1);
    const SET* cs = s;
    const L* l = v_bool("get") ? s->getItem(g_.tag) : cs->peekItem(g_.tag);
    if (l) { uint64_t k = l - g_.w; v_cover("hit"); v_assert(k < g_.n && valid(k) && tag(k) == g_.tag, "lookup.hit-is-a-valid-line-with-the-tag"); }
    else { v_cover("miss"); v_assert(!(valid(g_.g) && tag(g_.g) == g_.tag), "lookup.miss-only-when-no-valid-line-has-the-tag"); }
    v_assert(g_.rep->touches == 0 && g_.w[g_.g].valid_ == valid(g_.g) && g_.w[g_.g].tag_ == tag(g_.g), "lookup.changes-nothing");
}
extern "C" void vh_lookup_cold() {
    SET* s = v_obj<SET>("set"); ways(s);
    g_.tag = v_u64("tag");
    bool* cold = v_obj<bool>("cold");
    v_inv(hitInv, nullptr, 1); v_inv(coldInv, cold, 1);
    const L* l = s->getItem(g_.tag, *cold);
    if (l) { uint64_t k = l - g_.w; v_assert(k < g_.n && valid(k) && tag(k) == g_.tag && !*cold, "lookup.hit-is-a-valid-line-with-the-tag"); }
    else { v_assert(!(valid(g_.g) && tag(g_.g) == g_.tag), "lookup.miss-only-when-no-valid-line-has-the-tag"); if (!valid(g_.g)) v_assert(*cold, "lookup.cold-miss-reported"); }
}
extern "C" void vh_victim() {
    SET* s = v_obj<SET>("set"); ways(s);
    v_inv(openInv, nullptr, 1);
    L* l = v_bool("alias") ? &s->getItemForReplacement() : &s->getItemForReplacementWithInvalidCheck();
    uint64_t k = l - g_.w;
    v_assert(k < g_.n, "victim.in-the-set");
    if (valid(k)) { v_cover("policy"); v_assert(k == g_.rep->victim && valid(g_.g), "victim.policy-way-only-when-no-way-is-open"); }
    else { v_cover("open"); v_assert(k <= g_.g || valid(g_.g), "victim.first-open-way"); }
    v_assert(&s->getLRUItem() == g_.w + g_.rep->victim && &((const SET*)s)->peekLRUItem() == g_.w + g_.rep->victim, "victim.lru-line-is-the-policy-way");
}
extern "C" void vh_open() {
    SET* s = v_obj<SET>("set"); ways(s);
    v_inv(openInv, nullptr, 1);
    uint32_t k = s->findInvalidWay();
    if (k == g_.n) v_assert(valid(g_.g), "open.none-only-when-all-valid");
    else v_assert(k < g_.n && !valid(k) && (k <= g_.g || valid(g_.g)), "open.first-invalid-way");
}
extern "C" void vh_open_any() {
    SET* s = v_obj<SET>("set"); ways(s);
    v_inv(openInv, nullptr, 1);
    bool o = s->hasOpenWay();
    v_assert(o || valid(g_.g), "open.reported-when-a-way-is-invalid");
    v_assert(&s->getItemAtWay(g_.g) == g_.w + g_.g && &((const SET*)s)->peekItemAtWay(g_.g) == g_.w + g_.g, "way.addressed-by-number");
}
// ------------------------------------------------------------------ the whole cache: routing by address, fill, touch, invalidate
typedef SimpleCache2<L> SC;
struct Sets { SET* a; uint64_t n, k; L* other; };
static Sets ss_;
static void* f_begin(uint64_t i, void*) { return i == ss_.k ? (void*)g_.w : (void*)ss_.other; }
static void* f_end(uint64_t i, void*) { return i == ss_.k ? (void*)(g_.w + g_.n) : (void*)(ss_.other + 1); }
static uint64_t f_n(uint64_t i, void*) { return i == ss_.k ? g_.n : 1; }
static uint64_t f_id(uint64_t i, void*) { return i; }
static Rec* orep_;
static void* f_rep(uint64_t i, void*) { return i == ss_.k ? (void*)g_.rep : (void*)orep_; }
template <class C = SC, class S = SET> static C* any(uint64_t addr, C* c = v_obj<C>("cache")) {
    SET* s = v_obj<SET>("proto"); ways(s);
    const DefaultAddrDecoder* d = (const DefaultAddrDecoder*)dec_;
    ss_.n = uint64_t(d->index_mask_) + 1; ss_.k = (addr >> d->index_shift_) & d->index_mask_;
    v_assume(g_.set == ss_.k);
    ss_.other = (L*)v_array("other ways", 1, sizeof(L)); orep_ = v_obj<Rec>("other policy"); new (orep_) Rec; orep_->touches = 0;
    S* sa = (S*)v_array("sets", ss_.n, sizeof(S));
    ss_.a = (SET*)sa;
    const uint64_t W = offsetof(S, ways_);
    v_elem_ptr(sa, W, f_begin, nullptr); v_elem_ptr(sa, W + 8, f_end, nullptr);
    v_elem_int(sa, offsetof(S, num_ways_), 4, f_n, nullptr); v_elem_int(sa, offsetof(S, set_idx_), 4, f_id, nullptr);
    v_elem_ptr(sa, offsetof(S, replacement_policy_), f_rep, nullptr);
    auto& k = c->cache_;
    k.sets_._M_impl._M_start = sa; k.sets_._M_impl._M_finish = k.sets_._M_impl._M_end_of_storage = sa + ss_.n;
    *(uint32_t*)&k.num_sets_ = ss_.n; *(uint32_t*)&k.num_ways_ = g_.n;
    k.addr_decoder_ = (AddrDecoderIF*)dec_; *(const AddrDecoderIF**)&c->addr_decoder_ = dec_;
    return c;
}
extern "C" void vh_cache_lookup() {
    uint64_t x = v_u64("addr");
    SC* c = any(x);
    g_.tag = dec_->calcTag(x);
    v_inv(hitInv, nullptr, 1);
    unsigned how = v_u8("how");
    bool hit; const L* l = nullptr;
    if (how == 0) hit = c->isHit(x); else { l = how == 1 ? c->getLine(x) : c->peekLine(x); hit = l != nullptr; }
    if (l) { uint64_t k = l - g_.w; v_assert(k < g_.n && valid(k) && tag(k) == g_.tag, "cache.hit-in-the-set-of-the-address"); }
    if (!hit) v_assert(!(valid(g_.g) && tag(g_.g) == g_.tag), "cache.miss-only-when-absent");
    v_assert(g_.rep->touches == 0, "cache.lookup-touches-nothing");
}
extern "C" void vh_cache_fill() {
    uint64_t x = v_u64("addr");
    SC* c = any(x);
    uint64_t w = v_u64("way"); v_assume(w < g_.n && w != g_.g);
    bool m0 = g_.w[g_.g].modified_; uint64_t a0 = g_.w[g_.g].addr_;
    if (v_bool("nt form")) c->allocateWithMRUUpdate(g_.w[w], x, v_bool("nt")); else c->allocateWithMRUUpdate(g_.w[w], x);
    const L& l = g_.w[w];
    v_assert(l.isValid() && l.getTag() == dec_->calcTag(x) && l.getAddr() == dec_->calcBlockAddr(x) && !l.isModified(), "fill.line-now-holds-the-block");
    v_assert(l.getWay() == w && l.getSetIndex() == ss_.k, "fill.line-keeps-its-place");
    v_assert(g_.w[g_.g].valid_ == valid(g_.g) && g_.w[g_.g].tag_ == tag(g_.g) && g_.w[g_.g].addr_ == a0 && g_.w[g_.g].modified_ == m0, "fill.other-ways-unchanged");
    v_assert(g_.rep->touches == 1 && g_.rep->mru == w && orep_->touches == 0, "fill.makes-the-way-most-recent");
}
extern "C" void vh_cache_touch() {
    uint64_t x = v_u64("addr");
    SC* c = any(x);
    uint64_t w = v_u64("way"); v_assume(w < g_.n);
    unsigned op = v_u8("op");
    if (op == 0) { c->touchLRU(g_.w[w]); v_assert(g_.rep->touches == 1 && g_.rep->lru == w && orep_->touches == 0, "touch-lru.way-of-the-line"); }
    else if (op == 1) { c->touchMRU(g_.w[w]); v_assert(g_.rep->touches == 1 && g_.rep->mru == w && orep_->touches == 0, "touch-mru.way-of-the-line"); }
    else if (op == 2) {
        v_assume(w != g_.g);
        c->invalidateLineWithLRUUpdate(g_.w[w]);
        v_assert(!g_.w[w].isValid() && g_.rep->touches == 1 && g_.rep->lru == w, "invalidate.line-is-first-victim");
        v_assert(g_.w[g_.g].valid_ == valid(g_.g) && g_.w[g_.g].tag_ == tag(g_.g), "invalidate.other-ways-unchanged");
    } else if (op == 3) v_assert(&c->getLineForReplacement(x) == g_.w + g_.rep->victim, "replacement.policy-way-of-the-set");
    v_assert(&c->getCacheSet(x) == ss_.a + ss_.k, "cache.set-of-the-address");
}

// ------------------------------------------------------------------ least-recently-used order: a ring of n nodes in any order
using ND = std::_List_node<uint32_t>;
using NB = std::__detail::_List_node_base;
struct GR { ND* nodes; NB* head; uint64_t n; };
static GR r_;
static NB* node(uint64_t i) { return (NB*)(r_.nodes + i); }
static uint32_t wayAt(uint64_t i) { return (uint32_t)v_uf("way at", i); }
static uint64_t posOf(uint64_t w) { return v_uf("position", w); }
static NB* nx(uint64_t i) { return i + 1 < r_.n ? node(i + 1) : r_.head; }
static NB* pv(uint64_t i) { return i > 0 ? node(i - 1) : r_.head; }
static void* f_next(uint64_t i, void*) { return nx(i); }
static void* f_prev(uint64_t i, void*) { return pv(i); }
static uint64_t f_val(uint64_t i, void*) { return wayAt(i); }
static void* f_map(uint64_t w, void*) { return node(posOf(w)); }
static LRUReplacement* anyLRU(uint32_t w) {
    LRUReplacement* r = v_obj<LRUReplacement>("lru");
    { LRUReplacement t(1); memcpy((void*)r, (void*)&t, sizeof(void*)); }
    uint64_t n = v_u32("ways"); v_assume(n >= 1 && n < (1u << 24) && w < n);
    r_.n = n; *(uint32_t*)&r->num_ways_ = n;
    r_.nodes = (ND*)v_nodes("order", n, sizeof(ND));
    auto& l = r->lru_stack_._M_impl._M_node; r_.head = &l;
    v_elem_ptr(r_.nodes, 0, f_next, nullptr); v_elem_ptr(r_.nodes, 8, f_prev, nullptr); v_elem_int(r_.nodes, 16, 4, f_val, nullptr);
    l._M_next = node(0); l._M_prev = node(n - 1); l._M_size = n;
    auto* m = (std::list<uint32_t>::const_iterator*)v_array("way map", n, sizeof(void*));
    v_elem_ptr(m, 0, f_map, nullptr);
    r->way_map_._M_impl._M_start = m; r->way_map_._M_impl._M_finish = r->way_map_._M_impl._M_end_of_storage = m + n;
    v_assume(posOf(w) < n && wayAt(posOf(w)) == w);
    return r;
}
static uint32_t V(NB* n) { return *static_cast<ND*>(n)->_M_valptr(); }
extern "C" void vh_lru_mru() {
    uint32_t w = v_u32("w"); LRUReplacement* r = anyLRU(w);
    uint64_t n = r_.n, p = posOf(w), j = v_u32("j"); v_assume(j < n);
    const ReplacementIF* i = r;
    v_assert(i->getLRUWay() == wayAt(0) && i->getMRUWay() == wayAt(n - 1), "lru.ends-of-the-order");
    ((ReplacementIF*)r)->touchMRU(w);
    v_assert(i->getMRUWay() == w, "touch-mru.way-becomes-most-recent");
    v_assert(n == 1 || i->getLRUWay() == wayAt(p == 0 ? 1 : 0), "touch-mru.victim-is-the-oldest-other-way");
    v_assert(n == 1 || i->getLRUWay() != w || wayAt(p == 0 ? 1 : 0) == w, "touch-mru.way-is-not-the-victim");
    v_assert(V(node(j)) == wayAt(j) && *(NB**)&r->way_map_[w] == node(p), "touch-mru.ways-stay-in-their-nodes");
    NB* succ = p + 1 == n ? r_.head : j == p ? r_.head : j + 1 == p ? nx(p) : j + 1 == n ? node(p) : nx(j);
    if (p + 1 == n) succ = nx(j);
    v_assert(node(j)->_M_next == succ, "touch-mru.other-ways-keep-order");
    NB* pred = p + 1 == n ? pv(j) : j == p ? node(n - 1) : j == p + 1 ? pv(p) : pv(j);
    v_assert(node(j)->_M_prev == pred, "touch-mru.other-ways-keep-order-backwards");
    v_assert(r_.head->_M_prev == node(p) && r->lru_stack_.size() == n, "touch-mru.nothing-lost");
    v_cover("touched");
}
extern "C" void vh_lru_lru() {
    uint32_t w = v_u32("w"); LRUReplacement* r = anyLRU(w);
    uint64_t n = r_.n, p = posOf(w), j = v_u32("j"); v_assume(j < n);
    const ReplacementIF* i = r;
    ((ReplacementIF*)r)->touchLRU(w);
    v_assert(i->getLRUWay() == w, "touch-lru.way-becomes-the-victim");
    v_assert(n == 1 || i->getMRUWay() == wayAt(p == n - 1 ? n - 2 : n - 1), "touch-lru.most-recent-is-the-youngest-other-way");
    v_assert(V(node(j)) == wayAt(j) && *(NB**)&r->way_map_[w] == node(p), "touch-lru.ways-stay-in-their-nodes");
    NB* succ = p == 0 ? nx(j) : j == p ? node(0) : j + 1 == p ? nx(p) : nx(j);
    v_assert(node(j)->_M_next == succ, "touch-lru.other-ways-keep-order");
    NB* pred = p == 0 ? pv(j) : j == p ? r_.head : j == p + 1 ? pv(p) : j == 0 ? node(p) : pv(j);
    v_assert(node(j)->_M_prev == pred, "touch-lru.other-ways-keep-order-backwards");
    v_assert(r->lru_stack_.size() == n, "touch-lru.nothing-lost");
}
template <uint32_t N> static void make() {
    LRUReplacement r(N);
    uint32_t w = 0;
    for (uint32_t v : r.lru_stack_) { v_assert(v == w && *r.way_map_[w] == w, "construct.order-is-the-way-numbers"); ++w; }
    v_assert(w == N && r.way_map_.size() == N, "construct.every-way-once");
    r.reset(); v_assert(r.getLRUWay() == 0 && r.getMRUWay() == N - 1, "construct.ends");
}
extern "C" void vh_lru_construct() { make<1>(); make<2>(); make<3>(); make<8>(); }
// ------------------------------------------------------------------ the blocking cache: hit, miss, replacement, castout, write-through
struct SC1 : SimpleCache<L> {
    using SimpleCache<L>::SimpleCache;
    uint64_t co_addr; const L* co_line; bool co_valid; uint64_t rl_addr; L* rl_line; uint64_t nl_addr; uint32_t nl_size; const uint8_t* nl_buf; uint32_t co, rl, nl;
    void castout_(const L& l) override { co_addr = l.getAddr(); co_line = &l; co_valid = l.isValid(); ++co; SimpleCache<L>::castout_(l); }
    void reload_(uint64_t a, L& l) override { rl_addr = a; rl_line = &l; ++rl; SimpleCache<L>::reload_(a, l); }
    void writeNextLevel_(uint64_t a, uint32_t s, const uint8_t* b) override { nl_addr = a; nl_size = s; nl_buf = b; ++nl; SimpleCache<L>::writeNextLevel_(a, s, b); }
};

static SC1* anyBlocking(uint64_t x) {
    static SC1* t = new SC1(1, 1024, 1024, L(1024), TreePLRUReplacement(1));
    SC1* c = v_obj<SC1>("cache"); memcpy((void*)c, (void*)t, sizeof(void*));
    any<SC1, BasicCacheSet<L>>(x, c);
    c->co = c->rl = c->nl = 0; c->is_write_through_ = v_bool("write through"); c->is_write_allocate_ = v_bool("write allocate");
    g_.tag = dec_->calcTag(x);
    v_inv(hitInv, nullptr, 1);
    return c;
}
extern "C" void vh_blocking_getline() {
    uint64_t x = v_u64("addr"); SC1* c = anyBlocking(x);
    uint32_t vi = g_.rep->victim; bool vv = valid(vi), vm = g_.w[vi].modified_; uint64_t va = g_.w[vi].addr_;
    uint64_t c0 = c->stat_num_castouts_, r0 = c->stat_num_reloads_, m0 = c->stat_num_getline_misses_;
    bool gm = g_.w[g_.g].modified_; uint64_t ga = g_.w[g_.g].addr_;
    L* l = c->getLine(x); uint64_t k = l - g_.w;
    v_assert(k < g_.n && l->isValid() && l->getTag() == g_.tag, "blocking.line-holds-the-address");
    v_assert(g_.rep->touches == 1 && g_.rep->mru == k && orep_->touches == 0, "blocking.line-becomes-most-recent");
    v_assert(c->stat_num_getline_misses_ - m0 == c->rl && c->stat_num_reloads_ - r0 == c->rl && c->stat_num_castouts_ - c0 == c->co, "blocking.statistics-count-the-events");
    if (c->rl == 0) { v_cover("hit"); v_assert(valid(k) && tag(k) == g_.tag && c->co == 0, "blocking.hit-moves-nothing"); }
    else {
        v_cover("miss");
        v_assert(k == vi && c->rl == 1 && c->rl_line == l && c->rl_addr == dec_->calcBlockAddr(x) && l->getAddr() == c->rl_addr && !l->isModified(), "blocking.miss-reloads-the-block-into-the-victim");
        v_assert(!(valid(g_.g) && tag(g_.g) == g_.tag), "blocking.reload-only-on-a-miss");
        v_assert(c->co == (vv && vm ? 1u : 0u), "blocking.castout-exactly-when-the-victim-is-dirty");
        if (c->co) v_assert(c->co_line == l && c->co_addr == va && c->co_valid, "blocking.castout-before-the-line-is-replaced");
    }
    if (g_.g != k || !c->rl) v_assert(g_.w[g_.g].valid_ == valid(g_.g) && g_.w[g_.g].tag_ == tag(g_.g) && g_.w[g_.g].modified_ == gm && g_.w[g_.g].addr_ == ga, "blocking.other-lines-unchanged");
}
static uint32_t rdN_, wrN_; static uint64_t rwOff_; static uint32_t rwSize_; static const void* rwLine_; static const void* rwBuf_;
extern "C" bool st_read(const L* l, uint64_t off, uint32_t size, uint8_t* buf) { rdN_ = rdN_ + 1; rwOff_ = off; rwSize_ = size; rwLine_ = l; rwBuf_ = buf; return true; }
extern "C" bool st_write(L* l, uint64_t off, uint32_t size, const uint8_t* buf) { wrN_ = wrN_ + 1; rwOff_ = off; rwSize_ = size; rwLine_ = l; rwBuf_ = buf; return true; }
extern "C" void vh_blocking_read() {
    uint64_t x = v_u64("addr"); SC1* c = anyBlocking(x); rdN_ = 0; wrN_ = 0;
    uint8_t* b = (uint8_t*)v_array("buf", 8, 1); uint32_t sz = v_u32("size");
    bool rc = c->read(x, sz, b); uint64_t k = (const L*)rwLine_ - g_.w;
    v_assert(rc && rdN_ == 1 && wrN_ == 0 && c->nl == 0 && rwOff_ == dec_->calcBlockOffset(x) && rwSize_ == sz && rwBuf_ == b, "read.bytes-at-the-offset");
    v_assert(k < g_.n && g_.w[k].isValid() && g_.w[k].getTag() == g_.tag && g_.rep->touches == 1 && g_.rep->mru == k, "read.from-the-line-of-the-address");
    v_assert(c->rl == 0 ? (valid(k) && tag(k) == g_.tag) : (k == g_.rep->victim && c->rl_line == rwLine_), "read.miss-reloads-first");
}
extern "C" void vh_blocking_write() {
    uint64_t x = v_u64("addr"); SC1* c = anyBlocking(x); rdN_ = 0; wrN_ = 0;
    uint8_t* b = (uint8_t*)v_array("buf", 8, 1); uint32_t sz = v_u32("size");
    bool rc = c->write(x, sz, b); uint64_t k = (const L*)rwLine_ - g_.w;
    v_assert(rc && rdN_ == 0 && wrN_ <= 1 && c->nl <= 1, "write.once");
    if (c->nl) v_assert(c->nl_addr == x && c->nl_size == sz && c->nl_buf == b, "write.next-level-gets-the-same-write");
    if (wrN_) {
        v_cover("in the cache");
        v_assert(rwOff_ == dec_->calcBlockOffset(x) && rwSize_ == sz && rwBuf_ == b, "write.bytes-at-the-offset");
        v_assert(k < g_.n && g_.w[k].isValid() && g_.w[k].isModified() && g_.w[k].getTag() == g_.tag && g_.rep->touches == 1 && g_.rep->mru == k, "write.line-of-the-address-is-dirty");
        if (c->rl) v_assert(c->is_write_allocate_ && c->rl_line == rwLine_, "write.allocates-only-when-asked"); else v_assert(valid(k) && tag(k) == g_.tag, "write.hit");
    } else { v_cover("around"); v_assert(!c->is_write_allocate_ && c->rl == 0 && c->nl == 1 && g_.rep->touches == 0 && !(valid(g_.g) && tag(g_.g) == g_.tag), "write.around-only-on-a-miss"); }
    v_assert(c->nl == ((c->is_write_through_ || !wrN_) ? 1u : 0u), "write.reaches-the-next-level-exactly-when-required");
}
extern "C" void vh_blocking_probe() {
    uint64_t x = v_u64("addr"); SC1* c = anyBlocking(x);
    bool need = false, dirty = false; uint64_t ca = 0;
    bool hit = c->isHitWithCastout(x, need, ca, dirty);
    uint32_t vi = g_.rep->victim;
    if (hit) v_assert(!need, "probe.hit-needs-no-castout");
    else { v_assert(!(valid(g_.g) && tag(g_.g) == g_.tag), "probe.miss-only-when-absent"); v_assert(need == valid(vi) && (!need || (dirty == g_.w[vi].modified_ && ca == g_.w[vi].addr_)), "probe.castout-describes-the-victim"); }
    v_assert(g_.rep->touches == 0 && g_.w[g_.g].valid_ == valid(g_.g), "probe.changes-nothing");
}

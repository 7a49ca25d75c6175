// PROPERTY: P14
// ASSUME: owner counts stay below 2^31; reference counts are only changed through the pointers (single thread)
#include "verif.h"
#include <vector>
#include <memory>
#include <cstddef>
#include <functional>
#include <iostream>
#include <cstring>
#include "sparta/utils/SpartaSharedPointer.hpp"
#include "sparta/utils/SpartaSharedPointerAllocator.hpp"
using namespace sparta;
static uint64_t destroyed_, relObj_, relBlk_;
static void* lastObj_;
struct Obj { uint64_t v; explicit Obj(uint64_t x = 0) : v(x) {} ~Obj() { ++destroyed_; lastObj_ = this; } };
typedef SpartaSharedPointer<Obj> SP;
typedef SpartaWeakPointer<Obj> WP;
typedef SP::RefCount RC;
struct Rec : BaseAllocator {
    void releaseObject_(void* b) const noexcept override { ++relObj_; }
    void releaseBlock_(void* b) override { ++relBlk_; }
};
// an object owned by n >= 1 pointers and observed by w weak ones; from the heap or from a pool
struct G { RC* rc; Obj* o; int32_t n, w; bool pool; uint64_t d0, ro0, rb0; };
static G group(bool alive = true) {
    G g;
    g.pool = v_bool("pool");
    g.o = new Obj(v_u64("v"));
    BaseAllocator::MemBlockBase* mb = nullptr;
    if (g.pool) { Rec* r = v_obj<Rec>("alloc"); new (r) Rec; mb = v_obj<BaseAllocator::MemBlockBase>("block"); new (mb) BaseAllocator::MemBlockBase(r); }
    g.rc = new RC(g.o, mb);
    g.n = (int32_t)v_u32("owners"); g.w = (int32_t)v_u32("weak");
    v_assume(g.n >= 1 && g.n < 0x7ffffff0 && g.w >= 0 && g.w < 0x7ffffff0);
    g.rc->count = g.n; g.rc->wp_count = g.w;
    if (!alive) {      // the last owner is gone, weak observers remain
        v_assume(g.w >= 1 && g.n == 1);
        g.rc->count = -1; g.n = 0;
        if (!g.pool) { delete g.o; g.rc->p = nullptr; }
    }
    g.d0 = destroyed_; g.ro0 = relObj_; g.rb0 = relBlk_;
    return g;
}
// the group now has n owners and w weak observers (dead: no owner)
static void is(const G& g, int32_t n, int32_t w, const char* what) {
    bool wasAlive = g.n > 0;
    uint64_t rel = wasAlive && n == 0;
    if (g.pool) {
        v_assert(relObj_ == g.ro0 + rel && destroyed_ == g.d0, "object-released-exactly-once-by-the-last-owner");
        v_assert(relBlk_ == g.rb0 + (n == 0 && w == 0), "block-returned-exactly-when-unreferenced");
    } else {
        v_assert(destroyed_ == g.d0 + rel && relObj_ == g.ro0, "object-released-exactly-once-by-the-last-owner");
        if (wasAlive) v_assert(v_is_live(g.o) == (n > 0), "object-alive-while-owned");
        v_assert(v_is_live(g.rc) == (n > 0 || w > 0), "count-freed-exactly-when-unreferenced");
    }
    if (n > 0) { v_assert(g.rc->count == n && g.rc->p == g.o, what); v_assert(g.rc->wp_count == w, what); }
    else if (w > 0) { v_assert(g.rc->count == -1 && g.rc->wp_count == w, what); }
}
struct Slot { alignas(8) unsigned char b[sizeof(void*)]; };
static SP* sp(RC* rc) { SP* s = v_obj<SP>("sp"); s->ref_count_ = rc; return s; }
static WP* wp(RC* rc) { WP* s = v_obj<WP>("wp"); s->wp_ref_cnt_ = rc; return s; }
extern "C" void vh_copy_move() {
    G g = group();
    SP* a = sp(g.rc);
    { SP* b = v_obj<SP>("b"); new (b) SP(*a); v_assert(b->get() == g.o && a->get() == g.o && a->use_count() == uint32_t(g.n + 1) && b->use_count() == a->use_count(), "copy.shares"); is(g, g.n + 1, g.w, "copy"); g.n++;
      SP* c = v_obj<SP>("c"); new (c) SP(std::move(*b)); v_assert(c->get() == g.o && b->get() == nullptr && !*b && b->use_count() == 0, "move.transfers"); is(g, g.n, g.w, "move");
      SP* e = v_obj<SP>("e"); new (e) SP(*b); v_assert(e->get() == nullptr && !*e && !bool(*e) && *e == nullptr && e->use_count() == 0, "copy.null");
      b->~SP(); is(g, g.n, g.w, "destroy-null"); }
    v_assert(bool(*a) && !!*a && a->operator->() == g.o && &**a == g.o && *a != nullptr, "access");
}
extern "C" void vh_construct() {
    Obj* o = new Obj(7); uint64_t d = destroyed_, h = v_fresh_objs();
    { SP a(o); v_assert(a.use_count() == 1 && a.get() == o && a->v == 7, "construct.one-owner"); v_assert(destroyed_ == d, "construct.alive"); }
    v_assert(destroyed_ == d + 1 && lastObj_ == o && v_fresh_objs() == h - 1, "construct.released-with-its-owner");
    { SP n(nullptr), m((Obj*)nullptr), k; v_assert(!n && !m && !k && n == m, "construct.null"); }
    v_assert(destroyed_ == d + 1, "construct.null-releases-nothing");
}
extern "C" void vh_destroy() {
    G g = group();
    SP* a = sp(g.rc);
    a->~SP();
    if (g.n == 1) v_cover("last"); else v_cover("shared");
    is(g, g.n - 1, g.w, "destroy");
}
extern "C" void vh_reset() {
    G g = group();
    SP* a = sp(g.rc);
    if (v_bool("null")) { a->reset(); is(g, g.n - 1, g.w, "reset"); v_assert(a->get() == nullptr && a->use_count() == 0, "reset.null"); }
    else { Obj* o = new Obj(9); a->reset(o); is(g, g.n - 1, g.w, "reset"); v_assert(a->get() == o && a->use_count() == 1, "reset.new-object"); }
}
template <bool MOVE> static void assign() {
    G g = group();
    SP* a = sp(g.rc);
    if (v_bool("same")) {     // another pointer of the same group
        v_assume(g.n >= 2);
        SP* b = sp(g.rc);
        if (MOVE) { *a = std::move(*b); is(g, g.n - 1, g.w, "assign.same-group"); v_assert(b->get() == nullptr, "assign.moved-from-is-null"); }
        else { *a = *b; is(g, g.n, g.w, "assign.same-group"); v_assert(b->get() == g.o, "assign.source-kept"); }
        v_assert(a->get() == g.o, "assign.target");
    } else if (v_bool("null")) {
        SP* b = sp(nullptr);
        if (MOVE) *a = std::move(*b); else *a = *b;
        is(g, g.n - 1, g.w, "assign.null"); v_assert(a->get() == nullptr && b->get() == nullptr, "assign.null");
    } else {
        G h = group();
        SP* b = sp(h.rc);
        v_assume(!g.pool | !h.pool);
        h.d0 = g.d0; g.d0 = h.d0;
        if (MOVE) *a = std::move(*b); else *a = *b;
        uint64_t rel = g.n == 1;
        v_assert(a->get() == h.o && a->use_count() == uint32_t(MOVE ? h.n : h.n + 1) && b->get() == (MOVE ? nullptr : h.o), "assign.target");
        v_assert(h.rc->count == (MOVE ? h.n : h.n + 1) && h.rc->wp_count == h.w, "assign.new-group");
        is(g, g.n - 1, g.w, "assign.old-group");
    }
}
extern "C" void vh_assign() { assign<false>(); }
extern "C" void vh_assign_move() { assign<true>(); }
extern "C" void vh_assign_empty() {
    G g = group(); SP* a = sp(nullptr), *b = sp(g.rc);
    if (v_bool("move")) { *a = std::move(*b); is(g, g.n, g.w, "assign-empty"); v_assert(b->get() == nullptr, "assign-empty.moved"); } else { *a = *b; is(g, g.n + 1, g.w, "assign-empty"); }
    v_assert(a->get() == g.o, "assign-empty.target");
}
// head = head->next : the source lives inside the object the assignment releases
struct Node { SpartaSharedPointer<Node> next; uint64_t id; explicit Node(uint64_t i) : id(i) {} ~Node() { ++destroyed_; } };
extern "C" void vh_assign_from_owned() {
    Node* n1 = new Node(1); Node* n2 = new Node(2);
    SpartaSharedPointer<Node> head(n1);
    n1->next.reset(n2);
    uint64_t d = destroyed_;
    if (v_bool("move")) head = std::move(head->next); else head = head->next;
    v_assert(head.get() == n2 && head.use_count() == 1, "assign-from-owned.target");
    v_assert(destroyed_ == d + 1 && !v_is_live(n1) && v_is_live(n2), "assign-from-owned.releases-only-the-old-object");
    v_assert(head->id == 2 && !head->next, "assign-from-owned.object-intact");
}
extern "C" void vh_weak_alive() {
    G g = group();
    SP* a = sp(g.rc);
    WP* w = v_obj<WP>("w"); new (w) WP(*a); is(g, g.n, g.w + 1, "weak.observes-without-owning"); g.w++;
    v_assert(!w->expired() && w->use_count() == g.n, "weak.use-count");
    WP* x = v_obj<WP>("x"); new (x) WP(*w); is(g, g.n, g.w + 1, "weak.copy"); g.w++;
    WP* y = v_obj<WP>("y"); new (y) WP(std::move(*x)); is(g, g.n, g.w, "weak.move"); v_assert(x->expired(), "weak.moved-from-is-expired");
    { SP l = w->lock(); v_assert(l.get() == g.o && l.use_count() == uint32_t(g.n + 1), "weak.lock-owns"); is(g, g.n + 1, g.w, "weak.lock"); l.ref_count_ = nullptr; g.n++; }
    y->~WP(); is(g, g.n, g.w - 1, "weak.destroy");
}
extern "C" void vh_weak_expired() {
    G g = group(false);
    WP* w = wp(g.rc);
    v_assert(w->expired() && w->use_count() == 0, "weak.expired");
    { SP l = w->lock(); v_assert(l.get() == nullptr && !l && l.use_count() == 0, "weak.lock-of-expired-is-null"); is(g, 0, g.w, "weak.lock-of-expired"); }
    is(g, 0, g.w, "weak.lock-of-expired");
    WP* x = v_obj<WP>("x"); new (x) WP(*w); is(g, 0, g.w + 1, "weak.copy-of-expired"); v_assert(x->expired(), "weak.copy-of-expired"); g.w++;
    x->~WP(); is(g, 0, g.w - 1, "weak.destroy-expired"); g.w--;
    w->~WP();
    if (g.w == 1) v_cover("last weak");
    is(g, 0, g.w - 1, "weak.destroy-expired");
}
template <bool MOVE> static void wassign() {
    bool alive = v_bool("alive");
    G g = group(alive); v_assume(g.w >= 1);
    WP* w = wp(g.rc);
    if (v_bool("self")) { if (!MOVE) { *w = *w; if (alive || g.w > 1) is(g, g.n, g.w, "weak.self-assign"); else v_assert(w->expired(), "weak.self-assign"); } return; }
    if (v_bool("null")) { WP* x = wp(nullptr); if (MOVE) *w = std::move(*x); else *w = *x; is(g, g.n, g.w - 1, "weak.assign-null"); v_assert(w->expired(), "weak.assign-null"); return; }
    bool al2 = v_bool("alive2");
    uint64_t d0 = g.d0, ro0 = g.ro0, rb0 = g.rb0;
    G h = group(al2); v_assume(h.w >= 1); v_assume(!g.pool | !h.pool);
    g.d0 = h.d0; g.ro0 = h.ro0; g.rb0 = h.rb0;
    WP* x = wp(h.rc);
    if (MOVE) *w = std::move(*x); else *w = *x;
    v_assert(w->expired() == !al2 && w->use_count() == h.n && x->expired() == (MOVE || !al2), "weak.assign.target");
    v_assert(h.rc->wp_count == (MOVE ? h.w : h.w + 1) && h.rc->count == (al2 ? h.n : -1), "weak.assign.new-group");
    is(g, g.n, g.w - 1, "weak.assign.old-group");
}
extern "C" void vh_weak_assign() { wassign<false>(); }
extern "C" void vh_weak_assign_move() { wassign<true>(); }

// PROPERTY: P01
// PROPERTY: P02
// ASSUME: no logging or call trace is attached to the scheduler
// ASSUME: ObjectAllocator<TickQuantum>::create returns an unused quantum without successor and with empty groups (quanta are cleared and unlinked before they are freed: fire.* obligations)
// REPLACE: sparta::log::MessageSource::operator bool() const => st_off
// REPLACE: sparta::ObjectAllocator<sparta::Scheduler::TickQuantum>::create => st_create
#include "verif.h"
#include "src/Scheduler.cpp"
using namespace sparta;
using TQ = Scheduler::TickQuantum;
struct G { TQ* q; uint64_t n, g, at; TQ* fresh; uint64_t created; Scheduler* s; };
static G g_;
extern "C" bool st_off(void*) { return false; }
extern "C" TQ* st_create(void*, uint32_t&) { g_.created = g_.created + 1; return g_.fresh; }
static uint64_t tick(uint64_t i) { return v_uf("tick", i); }
static uint64_t f_tick(uint64_t i, void*) { return tick(i); }
static void* f_next(uint64_t i, void*) { return i + 1 < g_.n ? (void*)(g_.q + i + 1) : nullptr; }
// the pending list: n quanta, strictly increasing times, none before the current time
static void sorted(uint64_t a, uint64_t b) { v_assume(!(a < b && b < g_.n) || tick(a) < tick(b)); }
static Scheduler* any() {
    Scheduler* s = v_obj<Scheduler>("scheduler");
    g_.s = s; g_.n = v_u32("pending quanta"); v_assume(g_.n < (1u << 30));
    g_.q = (TQ*)v_nodes("quanta", g_.n, sizeof(TQ));
    v_elem_int(g_.q, offsetof(TQ, tick), 8, f_tick, nullptr);
    v_elem_ptr(g_.q, offsetof(TQ, next), f_next, nullptr);
    s->current_tick_quantum_ = g_.n ? g_.q : nullptr;
    g_.fresh = v_obj<TQ>("fresh quantum"); g_.fresh->next = nullptr; g_.created = 0;
    g_.g = v_u64("g"); v_assume(g_.g < g_.n || g_.n == 0);
    return s;
}
static bool before(void*, void* it) {          // every quantum in front of the loop position is earlier than the time looked for
    if (!it) return (g_.n == 0) | (tick(g_.g) < g_.at);
    uint64_t i = static_cast<TQ*>(it) - g_.q;
    return (i < g_.n) & ((g_.g >= i) | (tick(g_.g) < g_.at));
}
static bool behind(void*, void* it, void* last) {   // the second walks one quantum behind the first
    if (last == nullptr) return (it == nullptr) ? g_.n == 0 : it == (void*)g_.q;
    uint64_t i = it ? uint64_t(static_cast<TQ*>(it) - g_.q) : g_.n, l = static_cast<TQ*>(last) - g_.q;
    return (i <= g_.n) & (l + 1 == i) & (tick(l) < g_.at);
}
extern "C" void vh_quantum() {
    Scheduler* s = any();
    uint64_t rel = v_u64("rel"), now = s->current_tick_;
    v_assume(now + rel >= now && now < ~0ull);
    g_.at = now + rel;
    v_invp(before, nullptr); v_invp2(behind, nullptr);
    TQ* t = s->determineTickQuantum_(rel);
    v_assert(t->tick == g_.at, "quantum.has-the-requested-time");
    if (g_.created == 0) {
        v_cover("found");
        uint64_t k = t - g_.q;
        v_assert(k < g_.n && tick(k) == g_.at, "quantum.existing-one-is-shared");
        v_assert(s->current_tick_quantum_ == g_.q && (g_.n == 0 || g_.q[g_.g].next == f_next(g_.g, nullptr)), "quantum.list-unchanged-when-found");
    } else {
        v_assert(g_.created == 1 && t == g_.fresh, "quantum.one-created");
        TQ* nx = t->next;
        if (nx) {
            uint64_t k = nx - g_.q;
            v_assert(k < g_.n && tick(k) > g_.at, "quantum.successor-is-later");
            v_assert(k == 0 ? s->current_tick_quantum_ == t : g_.q[k - 1].next == t, "quantum.linked-before-its-successor");
            v_assert(k == 0 || tick(k - 1) < g_.at, "quantum.predecessor-is-earlier");
            if (g_.n) { sorted(k, g_.g); v_assert(tick(g_.g) != g_.at, "quantum.created-only-when-no-quantum-has-the-time");
                v_assert(g_.q[g_.g].next == (g_.g + 1 == k ? t : f_next(g_.g, nullptr)), "quantum.other-links-unchanged"); }
            v_assert(k == 0 || s->current_tick_quantum_ == g_.q, "quantum.head-unchanged");
            v_cover("in front");
        } else {
            v_cover("last");
            v_assert(g_.n == 0 ? s->current_tick_quantum_ == t : (s->current_tick_quantum_ == g_.q && g_.q[g_.n - 1].next == t), "quantum.appended");
            v_assert(g_.n == 0 || tick(g_.g) < g_.at, "quantum.every-other-is-earlier");
            if (g_.n && g_.g + 1 < g_.n) v_assert(g_.q[g_.g].next == f_next(g_.g, nullptr), "quantum.other-links-unchanged");
        }
    }
    if (g_.n) v_assert(g_.q[g_.g].tick == tick(g_.g), "quantum.times-unchanged");
    v_assert(s->current_tick_ == now, "quantum.time-unchanged");
}

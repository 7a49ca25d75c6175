// PROPERTY: P01
// PROPERTY: P03
// ASSUME: no logging, call trace or notification observer is attached to the scheduler
// REPLACE: sparta::log::MessageSource::operator bool() const => st_off
// OPAQUE: sparta::color
// OPAQUE: sparta::log::MessageSource
// OPAQUE: sparta::log::LogObject
#include "verif.h"
#include "src/Scheduler.cpp"
#include "src/Scheduleable.cpp"
using namespace sparta;
using TQ = Scheduler::TickQuantum;
using SG = TQ::ScheduleableGroup;
// any list of quanta; quantum c (arbitrary) holds any events in group k, event g of it is watched
struct G { TQ* q; uint64_t n, c; SG *gc, *go; uint64_t ng, k; Scheduleable **ev, **oev; uint64_t ne, g; Scheduleable *dom, *cancelled, *was; uint64_t told, at, fg, fe; const Scheduleable* e; Scheduleable* t; Scheduler* s; };
static G g_;
static void*** vt_;
extern "C" bool st_off(void*) { return false; }
struct T : Scheduleable { using Scheduleable::Scheduleable; void eventCancelled_() override { v_assert(this == g_.e, "cancel-at.only-the-cancelled-event-is-told"); g_.told = 1; } };
static uint64_t tick(uint64_t i) { return v_uf("tick", i); }
static uint64_t f_tick(uint64_t i, void*) { v_assume(v_uf("the quantum of tick", tick(i)) == i); return tick(i); }   // one quantum per tick
static void* f_next(uint64_t i, void*) { return i + 1 < g_.n ? (void*)(g_.q + i + 1) : nullptr; }
static void* f_groups(uint64_t i, void*) { return i == g_.c ? g_.gc : g_.go; }
static void* f_gend(uint64_t i, void*) { return i == g_.c ? g_.gc + g_.ng : g_.go + g_.ng; }
static void* f_beg(uint64_t i, void*) { return i == g_.k ? (void*)g_.ev : (void*)g_.oev; }
static void* f_end(uint64_t i, void*) { return i == g_.k ? (void*)(g_.ev + g_.ne) : (void*)(g_.oev + 8); }
static void* f_oend(uint64_t, void*) { return (void*)(g_.oev + 8); }
static void* f_obeg(uint64_t, void*) { return (void*)g_.oev; }
static uint64_t f_cnt(uint64_t i, void*) { return i == g_.k ? g_.ne : 8; }
static uint64_t f_ocnt(uint64_t, void*) { return 8; }
static void* f_vt(uint64_t, void*) { return vt_; }
static uint64_t f_pg(uint64_t i, void*) { return v_uf("group of event", i); }
static void* f_self(uint64_t, void*) { return g_.s; }
static Scheduler* any() {
    Scheduler* s = v_obj<Scheduler>("scheduler");
    g_.s = s; g_.n = v_u32("pending quanta"); v_assume(g_.n < (1u << 30) && g_.n > 0);
    g_.c = v_u64("c"); v_assume(g_.c < g_.n);
    g_.ng = v_u32("groups"); v_assume(g_.ng >= 3 && g_.ng < (1u << 30));
    g_.q = (TQ*)v_nodes("quanta", g_.n, sizeof(TQ));
    v_elem_int(g_.q, offsetof(TQ, tick), 8, f_tick, nullptr);
    v_elem_ptr(g_.q, offsetof(TQ, next), f_next, nullptr);
    v_elem_ptr(g_.q, offsetof(TQ, groups), f_groups, nullptr); v_elem_ptr(g_.q, offsetof(TQ, groups) + 8, f_gend, nullptr);
    g_.ne = v_u32("events in the group"); v_assume(g_.ne < (1u << 30)); g_.g = v_u64("g"); v_assume(g_.g < g_.ne);
    g_.dom = (Scheduleable*)v_array("scheduleables", 1u << 30, sizeof(Scheduleable));
    { T* t = new T(SpartaHandler("x"), 0, SchedulingPhase::Tick); vt_ = *(void****)(void*)t; }
    v_elem_ptr(g_.dom, 0, f_vt, nullptr);
    v_elem_int(g_.dom, offsetof(Scheduleable, pgid_), 4, f_pg, nullptr);
    g_.gc = (SG*)v_array("groups of c", g_.ng, sizeof(SG)); g_.go = (SG*)v_array("groups of the others", g_.ng, sizeof(SG));
    g_.ev = (Scheduleable**)v_array("events of c", g_.ne, 8); g_.oev = (Scheduleable**)v_array("other events", 8, 8);
    v_elem_dom(g_.ev, 0, g_.dom); v_elem_dom(g_.oev, 0, g_.dom); g_.was = g_.ev[g_.g];
    const uint64_t V = offsetof(SG, scheduleables_);
    v_elem_ptr(g_.gc, V, f_beg, nullptr); v_elem_int(g_.gc, offsetof(SG, current_idx_), 8, f_cnt, nullptr);
    v_elem_ptr(g_.gc, V + 8, f_end, nullptr); v_elem_ptr(g_.go, V + 8, f_oend, nullptr); v_elem_ptr(g_.gc, V + 16, f_end, nullptr); v_elem_ptr(g_.go, V + 16, f_oend, nullptr);
    v_elem_int(g_.gc, offsetof(SG, size_), 8, f_cnt, nullptr); v_elem_int(g_.go, offsetof(SG, size_), 8, f_ocnt, nullptr);
    v_elem_ptr(g_.go, V, f_obeg, nullptr); v_elem_int(g_.go, offsetof(SG, current_idx_), 8, f_ocnt, nullptr);
    s->current_tick_quantum_ = g_.q; s->group_zero_ = g_.ng - 1; s->firing_group_count_ = g_.ng;
    g_.cancelled = g_.dom; *(Scheduleable**)&s->cancelled_event_ = g_.cancelled;
    uint64_t d = v_u32("the event"); v_assume(d < (1u << 30)); v_assume(d != 0); g_.e = g_.dom + d;
    uint32_t pg = g_.e->getGroupID(); v_assume(pg < g_.ng - 2); g_.k = pg ? pg + 1 : g_.ng - 1;
    v_assume(g_.q[g_.c].tick == tick(g_.c)); g_.told = 0; g_.fg = s->current_group_firing_; g_.fe = s->current_event_firing_;
    return s;
}
static bool kept(void*, uint64_t) { return (g_.ev[g_.g] == g_.was) | ((g_.ev[g_.g] == g_.cancelled) & (g_.was == g_.e)); }
static bool gone(void*, uint64_t i) { return (g_.g >= i) | (g_.ev[g_.g] != g_.e); }
static bool goneq(void*, void* it) {
    if (!it) return g_.ev[g_.g] != g_.e;
    uint64_t i = static_cast<TQ*>(it) - g_.q;
    return (i < g_.n) & ((g_.c >= i) | (g_.ev[g_.g] != g_.e));
}
extern "C" void vh_cancel_all() {
    Scheduler* s = any();
    v_inv(kept, nullptr, 0); v_inv(gone, nullptr, 1); v_invp(goneq, nullptr);
    s->cancelEvent(g_.e);
    v_assert(g_.ev[g_.g] == (g_.was == g_.e ? g_.cancelled : g_.was), "cancel.every-occurrence-and-nothing-else");
    v_assert(g_.gc[g_.k].current_idx_ == g_.ne && g_.q[g_.c].tick == tick(g_.c) && g_.q[g_.c].next == f_next(g_.c, nullptr), "cancel.rest-unchanged");
}
static bool seek(void*, void* it) {          // the quantum of the time has not been passed
    if (!it) return tick(g_.c) != g_.at;
    uint64_t i = static_cast<TQ*>(it) - g_.q;
    return (i < g_.n) & ((g_.c >= i) | (tick(g_.c) != g_.at));
}
// the watched entry belongs to the group being fired and was fired already (it is not told), or all entries were
static bool fired(uint64_t i) { return (g_.c == 0) & (g_.k == g_.fg) & (i <= g_.fe); }
static bool told(void*, uint64_t) { return (g_.ev[g_.g] == g_.was) | fired(g_.g) | (g_.told == 1); }
static bool untold(void*, uint64_t) { return !fired(g_.ne - 1) | (tick(g_.c) != g_.at) | (g_.told == 0); }
extern "C" void vh_cancel_at() {
    Scheduler* s = any();
    uint64_t rel = v_u64("rel"); g_.at = s->current_tick_ + rel; v_assume(g_.at >= rel);
    v_inv(kept, nullptr, 0); v_inv(gone, nullptr, 1); v_inv(told, nullptr, 0); v_inv(untold, nullptr, 0); v_invp(seek, nullptr);
    s->cancelEvent(g_.e, rel);
    if (tick(g_.c) == g_.at) { v_cover("at the time"); v_assert(g_.ev[g_.g] == (g_.was == g_.e ? g_.cancelled : g_.was), "cancel-at.every-occurrence-at-that-time"); v_assert(g_.was != g_.e || g_.told == 1 || fired(g_.g), "cancel-at.the-event-is-told"); v_assert(!fired(g_.ne - 1) || g_.told == 0, "cancel-at.an-event-that-fired-already-is-not-told"); }
    else { v_assert(g_.ev[g_.g] == g_.was, "cancel-at.other-times-unchanged"); }
    v_assert(g_.gc[g_.k].current_idx_ == g_.ne && g_.q[g_.c].tick == tick(g_.c), "cancel-at.rest-unchanged");
}

static bool notfound(void*, uint64_t i) { return (g_.g >= i) | (g_.was != g_.e); }
static bool notfoundq(void*, void* it) {
    if (!it) return g_.was != g_.e;
    uint64_t i = static_cast<TQ*>(it) - g_.q;
    return (i < g_.n) & ((g_.c >= i) | (g_.was != g_.e));
}
extern "C" void vh_is_scheduled() {
    Scheduler* s = any();
    v_inv(kept, nullptr, 0); v_inv(notfound, nullptr, 1); v_invp(notfoundq, nullptr);
    bool r = s->isScheduled(g_.e);
    if (!r) { v_cover("not scheduled"); v_assert(g_.was != g_.e, "is-scheduled.pending-event-is-seen"); } else v_cover("scheduled");
    v_assert(g_.ev[g_.g] == g_.was && g_.gc[g_.k].current_idx_ == g_.ne, "is-scheduled.changes-nothing");
}
// nothing matches: not scheduled
static void* f_none(uint64_t, void*) { return g_.cancelled; }
extern "C" void vh_is_scheduled_not() {
    Scheduler* s = any();
    v_elem_ptr(g_.ev, 0, f_none, nullptr); v_elem_ptr(g_.oev, 0, f_none, nullptr);
    v_assert(!s->isScheduled(g_.e), "is-scheduled.only-if-pending");
    v_assert(!s->isScheduled(g_.e, v_u32("rel")), "is-scheduled-at.only-if-pending");
}
static bool sorted(uint64_t a, uint64_t b) { return !(a < b && b < g_.n) || tick(a) < tick(b); }
static bool seeks(void*, void* it) {
    if (!it) return tick(g_.c) != g_.at;
    uint64_t i = static_cast<TQ*>(it) - g_.q;
    return (i < g_.n) & ((g_.c >= i) | (tick(g_.c) != g_.at));
}
static uint64_t f_tick_sorted(uint64_t i, void*) { v_assume(v_uf("the quantum of tick", tick(i)) == i && sorted(i, g_.c) && sorted(g_.c, i)); return tick(i); }
extern "C" void vh_is_scheduled_at() {
    Scheduler* s = any();
    v_elem_int(g_.q, offsetof(TQ, tick), 8, f_tick_sorted, nullptr);
    uint64_t rel = v_u64("rel"); g_.at = s->current_tick_ + rel; v_assume(g_.at >= rel);
    v_inv(kept, nullptr, 0); v_inv(notfound, nullptr, 1); v_invp(seeks, nullptr);
    bool r = s->isScheduled(g_.e, rel);
    if (tick(g_.c) == g_.at) { v_cover("at the time"); if (!r) v_assert(g_.was != g_.e, "is-scheduled-at.pending-event-is-seen"); }
    v_assert(g_.ev[g_.g] == g_.was, "is-scheduled-at.changes-nothing");
}

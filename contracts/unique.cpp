// PROPERTY: P03
// ASSUME: Scheduler::scheduleEvent and cancelEvent are used through their contracts (sched_event.cpp: unique de-duplication; sched_cancel.cpp); the consumer's handler is an arbitrary recorded call
// ASSUME: the tick of cycle c relative to the current time is an arbitrary value (Clock, P04) with one cycle at least one tick; single-cycle events are scheduled on edges of their clock
// REPLACE: sparta::Scheduler::scheduleEvent( => st_schedule
// REPLACE: sparta::Scheduler::cancelEvent(sparta::Scheduleable const*) => st_cancel
// REPLACE: sparta::SpartaHandler::operator()() const => st_handler
// REPLACE: sparta::Clock::getTick(unsigned long const&) const => st_tick
// REPLACE: sparta::Clock::getScheduler() const => st_sched
// REPLACE: sparta::Scheduleable::isScheduled(unsigned long) const => st_is
#include "verif.h"
#include <cstddef>
#include "sparta/events/PhasedUniqueEvent.hpp"
#include "sparta/events/PhasedSingleCycleUniqueEvent.hpp"
#include "src/Scheduleable.cpp"
using namespace sparta;
using U = PhasedUniqueEvent; using S = PhasedSingleCycleUniqueEvent;
struct H { Scheduler* s; uint64_t now, period, sched, rel, handled, cancelled; bool uniq, cont, pend; uint32_t pg; const Scheduleable* who; uint64_t watch, lastInHandler; U* u; S* e; };
static H h_;
static std::string name_;
static const std::string& st_name(const void*) { return name_; }
typedef const std::string& (*NameFn)(const void*);
static NameFn names_[40] = {st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name, st_name};        // virtual functions used for messages only
extern "C" {
void st_schedule(Scheduler*, const Scheduleable* w, uint64_t rel, uint32_t pg, bool cont, bool uniq) { h_.sched = h_.sched + 1; h_.who = w; h_.rel = rel; h_.pg = pg; h_.cont = cont; h_.uniq = uniq; }
void st_cancel(Scheduler*, const Scheduleable* w) { h_.cancelled = h_.cancelled + 1; h_.who = w; }
uint64_t st_tick(const void*, const uint64_t* c) { return *c * h_.period; }
Scheduler* st_sched(const void*) { return h_.s; }
bool st_is(const Scheduleable*, uint64_t c) { return h_.pend & (h_.watch == h_.now + c * h_.period); }
void st_handler(const SpartaHandler*) { h_.handled = h_.handled + 1; h_.lastInHandler = h_.u ? h_.u->last_tick_called_ : h_.e->last_delivered_tick_; }
}
static void any() {
    Scheduler* s = h_.s = v_obj<Scheduler>("scheduler");
    h_.now = v_u64("now"); s->current_tick_ = h_.now; v_assume(h_.now < (1ull << 60));
    h_.period = v_u32("period"); v_assume(h_.period >= 1);
    h_.sched = h_.handled = h_.cancelled = 0; h_.u = nullptr; h_.e = nullptr; h_.pend = false;
}
extern "C" void vh_unique_schedule() {
    any();
    U* u = h_.u = v_obj<U>("unique event"); *(NameFn**)(void*)u = names_;
    *(Scheduler**)((char*)&u->scheduler_ + 8) = h_.s; u->local_clk_ = v_obj<Clock>("clock");
    *(bool*)&u->is_unique_event_ = true;
    uint64_t rel = v_u64("rel"), last = u->last_tick_called_; v_assume(rel < (1ull << 60));
    bool refused = false;
    try { u->U::scheduleRelativeTick(rel, h_.s); } catch (const SpartaException&) { refused = true; }
    v_assert(refused == (last == h_.now + rel), "unique.refused-exactly-when-it-has-run-at-that-time");
    v_assert(h_.sched == (refused ? 0 : 1), "unique.passed-on-once");
    if (!refused) v_assert(h_.uniq && h_.who == (Scheduleable*)u && h_.rel == rel && h_.pg == u->pgid_ && h_.cont == u->continuing_, "unique.at-the-requested-time-de-duplicated");
    v_assert(u->last_tick_called_ == last, "unique.schedule-is-not-a-delivery");
}
extern "C" void vh_unique_deliver() {
    any();
    U* u = h_.u = v_obj<U>("unique event"); u->local_clk_ = v_obj<Clock>("clock");
    u->deliverEvent_();
    v_assert(h_.handled == 1 && u->last_tick_called_ == h_.now && h_.lastInHandler == h_.now, "unique.delivered-once-and-remembered");
}
// the state of a single-cycle event: any time at or after now it is pending for is `next` or `prev`, both at most one
// cycle ahead; `next` or `prev` at or after now means pending or, at the current time, delivered already.
// watched time w: w is pending iff h_.pend
static const uint64_t NONE = ~0ull;
static S* anys() {
    any();
    S* e = h_.e = v_obj<S>("single-cycle event"); *(NameFn**)(void*)e = names_;
    e->local_clk_ = v_obj<Clock>("clock"); e->local_scheduler_ = h_.s;
    h_.watch = v_bool("watch the next cycle") ? h_.now + h_.period : h_.now; h_.pend = v_bool("pending at the watched time");
    { Scheduleable* t = new Scheduleable(SpartaHandler("x"), 0, SchedulingPhase::Tick); *(void**)&e->single_cycle_event_scheduleable_ = *(void**)t; }
    return e;
}
static bool inv(S* e) {
    uint64_t n = e->next_scheduled_tick_, p = e->prev_scheduled_tick_, d = e->last_delivered_tick_, w = h_.watch, nx = h_.now + h_.period;
    bool listed = (n == w) | (p == w);
    return ((n == NONE) | (n <= h_.now) | (n == nx)) & ((p == NONE) | (p <= h_.now)) & ((p == NONE) | ((n != NONE) & (p <= n)))
        & ((d == NONE) | (d <= h_.now)) & (listed == (h_.pend | (d == w))) & !(h_.pend & (d == w));
}
extern "C" void vh_single_schedule() {
    S* e = anys(); v_assume(inv(e)); bool p0 = h_.pend; uint64_t d = e->last_delivered_tick_;
    uint64_t c = v_u64("relative cycle"), t = h_.now + c * h_.period;
    bool refused = false;
    try { e->schedule(c); } catch (const SpartaException&) { refused = true; }
    v_assert(refused == (c > 1), "single-cycle.only-now-or-the-next-cycle");
    if (refused) { v_cover("refused"); v_assert(h_.sched == 0, "single-cycle.refusal-changes-nothing"); return; }
    if (h_.watch == t) {
        v_cover("watched");
        v_assert(h_.sched == ((p0 | (d == t)) ? 0 : 1), "single-cycle.scheduled-iff-neither-pending-nor-delivered-at-that-time");
        if (h_.sched) { v_cover("scheduled"); v_assert(h_.rel == c * h_.period && h_.who == &e->single_cycle_event_scheduleable_, "single-cycle.at-the-requested-time"); h_.pend = true; }
        else v_cover("already");
    }
    v_assert(inv(e), "single-cycle.bookkeeping");
    v_assert(e->last_delivered_tick_ == d, "single-cycle.schedule-is-not-a-delivery");
}
extern "C" void vh_single_cancel() {
    S* e = anys(); v_assume(inv(e));
    e->cancel(); h_.pend = false;
    v_assert(h_.cancelled == 1 && h_.who == &e->single_cycle_event_scheduleable_, "single-cycle.cancelled");
    v_assert(inv(e), "single-cycle.bookkeeping-after-cancel");
}
extern "C" void vh_single_deliver() {
    S* e = anys(); v_assume(inv(e)); h_.watch = h_.now; v_assume(h_.pend);
    v_assume(inv(e));
    e->deliverEvent_(); h_.pend = false;
    v_assert(h_.handled == 1 && h_.lastInHandler == h_.now, "single-cycle.delivered-once-and-remembered");
    v_assert(inv(e), "single-cycle.bookkeeping-after-delivery");
}
// time passes: to the next edge, or beyond it once nothing is pending there
extern "C" void vh_single_time() {
    S* e = anys(); bool far = v_bool("nothing pending at the next cycle");
    uint64_t now0 = h_.now, w = h_.watch; v_assume(inv(e));
    v_assume(w == now0 + h_.period);                 // only what is pending for the next cycle survives the step
    h_.now = far ? now0 + h_.period * (2 + (uint64_t)v_u16("more")) : now0 + h_.period; v_assume(!far || !h_.pend);
    v_assume(h_.now < (1ull << 61)); h_.watch = v_bool("watch the cycle after") ? h_.now + h_.period : h_.now;
    if (h_.watch != w) h_.pend = false;
    if (!far || h_.watch != w) v_assert(inv(e), "single-cycle.bookkeeping-as-time-passes");
}

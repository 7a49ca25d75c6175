// PROPERTY: P01
// PROPERTY: P02
// ASSUME: no logging or call trace is attached to the scheduler; a handler may stop the run but its effects on the pending lists are those of the contracts of scheduleEvent and cancelEvent, checked separately
// ASSUME: the number of events in a group is at most the capacity of its storage (contract group.* of sched_event.cpp); a group holds fewer than 2^30 events
// ASSUME: ScheduleableGroup::clear is used through its contract (group.cleared in sched_event.cpp); that it is called for every group that was fired is checked
// ASSUME: the watchdog does not expire; SleeperThread does nothing; ObjectAllocator::free keeps the quantum for reuse
// REPLACE: sparta::log::MessageSource::operator bool() const => st_off
// REPLACE: sparta::SpartaHandler::operator()() const => st_fire
// REPLACE: sparta::SleeperThread::getInstance() => st_sleeper
// REPLACE: sparta::Scheduler::scheduleEvent => st_sched
// REPLACE: sparta::Scheduler::cancelEvent(sparta::Scheduleable const*) => st_cancel
// REPLACE: sparta::Scheduler::TickQuantum::ScheduleableGroup::clear() => st_clear
// REPLACE: sparta::ObjectAllocator<sparta::Scheduler::TickQuantum>::free => st_free
// OPT: lean=1
// OPAQUE: sparta::color
// OPAQUE: sparta::log::MessageSource
// OPAQUE: sparta::log::LogObject
#include "verif.h"
#include "src/Scheduler.cpp"
#include "src/Scheduleable.cpp"
using namespace sparta;
using TQ = Scheduler::TickQuantum;
using SG = TQ::ScheduleableGroup;
// any list of quanta; quantum c (arbitrary) holds any events in group k, event g of it is watched
struct Begun {};
static bool throw_;
struct G {
    TQ* q; uint64_t n, c; SG *gc, *go; uint64_t ng, k; Scheduleable **ev, **oev; uint64_t ne, g; Scheduleable *dom, *was; Scheduler* s;
    uint64_t fired, lq, lg, le, any, scheds, srel, cancels, freed; uint32_t sgroup; bool scont, stopped; uint64_t cleared;
};
static G g_;
static uint64_t tick(uint64_t i) { return v_uf("tick", i); }
extern "C" bool st_off(void*) { return false; }
static NullSleeperThread* sl_;
extern "C" SleeperThreadBase* st_sleeper() { return sl_; }
const Scheduler::Tick Scheduler::INDEFINITE = 0xFFFFFFFFFFFFFFFFull;   // as in src/sparta.cpp
extern "C" void st_free(void*, void*) { g_.freed = g_.freed + 1; }
extern "C" void st_sched(Scheduler*, Scheduleable* e, uint64_t rel, uint32_t grp, bool cont, bool) {
    v_assert(e == g_.s->stop_event_.get(), "run.only-the-stop-event-is-added");
    g_.scheds = g_.scheds + 1; g_.srel = rel; g_.sgroup = grp; g_.scont = cont;
    if (throw_) throw Begun();
}
extern "C" void st_cancel(Scheduler*, const Scheduleable* e) { v_assert(e == g_.s->stop_event_.get(), "run.only-the-stop-event-is-removed"); g_.cancels = g_.cancels + 1; }
extern "C" void st_clear(SG* g) {
    uint64_t q = g_.s->current_tick_quantum_ - g_.q, grp = g_.s->current_group_firing_;
    SG* want = (q == g_.c ? g_.gc : g_.go) + grp;
    v_assert(g == want, "fire.clears-the-group-it-fired");
    g_.cleared = g_.cleared | uint64_t((q == g_.c) & (grp == g_.k));
}
extern "C" void st_fire(const SpartaHandler* h) {
    Scheduler* s = g_.s;
    uint64_t q = s->current_tick_quantum_ - g_.q, grp = s->current_group_firing_, e = s->current_event_firing_;
    v_assert(s->current_tick_ == tick(q), "fire.at-the-time-of-its-quantum");
    v_assert((g_.any == 0) | (g_.lq < q) | ((g_.lq == q) & ((g_.lg < grp) | ((g_.lg == grp) & (g_.le < e)))), "fire.in-order-of-time-group-and-scheduling");
    g_.any = 1; g_.lq = q; g_.lg = grp; g_.le = e;
    bool watched = (q == g_.c) & (grp == g_.k) & (e == g_.g);
    v_assert(!watched | (h == &g_.was->consumer_event_handler_), "fire.the-event-that-was-scheduled");
    v_assert(!watched | (g_.fired == 0), "fire.once");
    g_.fired = g_.fired | uint64_t(watched);
    bool stop = v_bool("handler stops the run");
    s->running_ = s->running_ & !stop; g_.stopped = g_.stopped | stop;
}
static uint64_t f_tick(uint64_t i, void*) { v_assume((i + 1 >= g_.n || tick(i) < tick(i + 1)) && tick(i) < (1ull << 62)); return tick(i); }     // increasing
static uint64_t f_first(uint64_t i, void*) { return v_uf("first group", i); }
static void* f_next(uint64_t i, void*) { return i + 1 < g_.n ? (void*)(g_.q + i + 1) : nullptr; }
static void* f_groups(uint64_t i, void*) { return i == g_.c ? g_.gc : g_.go; }
static void* f_gend(uint64_t i, void*) { return i == g_.c ? g_.gc + g_.ng : g_.go + g_.ng; }
static void* f_beg(uint64_t i, void*) { return i == g_.k ? (void*)g_.ev : (void*)g_.oev; }
static void* f_obeg(uint64_t, void*) { return (void*)g_.oev; }
static uint64_t f_cnt(uint64_t i, void*) { return i == g_.k ? g_.ne : 8; }
static uint64_t f_ocnt(uint64_t, void*) { return 8; }
static Scheduler* any() {
    Scheduler* s = v_obj<Scheduler>("scheduler");
    g_.s = s; g_.n = v_u32("pending quanta"); v_assume(g_.n < (1u << 30) && g_.n > 0);
    g_.c = v_u64("c"); v_assume(g_.c < g_.n);
    g_.ng = v_u32("groups"); v_assume(g_.ng >= 3 && g_.ng < (1u << 30));
    g_.k = v_u64("k"); v_assume(g_.k < g_.ng && v_uf("first group", g_.c) <= g_.k);
    g_.q = (TQ*)v_nodes("quanta", g_.n, sizeof(TQ));
    v_elem_int(g_.q, offsetof(TQ, tick), 8, f_tick, nullptr);
    v_elem_int(g_.q, offsetof(TQ, first_group_idx), 4, f_first, nullptr);
    v_elem_ptr(g_.q, offsetof(TQ, next), f_next, nullptr);
    v_elem_ptr(g_.q, offsetof(TQ, groups), f_groups, nullptr); v_elem_ptr(g_.q, offsetof(TQ, groups) + 8, f_gend, nullptr);
    g_.ne = v_u32("events in the group"); v_assume(g_.ne < (1u << 30)); g_.g = v_u64("g"); v_assume(g_.g < g_.ne);
    g_.dom = (Scheduleable*)v_array("scheduleables", 1u << 30, sizeof(Scheduleable));
    g_.gc = (SG*)v_array("groups of c", g_.ng, sizeof(SG)); g_.go = (SG*)v_array("groups of the others", g_.ng, sizeof(SG));
    g_.ev = (Scheduleable**)v_array("events of c", 1ull << 32, 8); g_.oev = (Scheduleable**)v_array("other events", 1ull << 32, 8);
    v_elem_dom(g_.ev, 0, g_.dom); v_elem_dom(g_.oev, 0, g_.dom); g_.was = g_.ev[g_.g];
    const uint64_t V = offsetof(SG, scheduleables_);
    v_elem_ptr(g_.gc, V, f_beg, nullptr); v_elem_int(g_.gc, offsetof(SG, current_idx_), 8, f_cnt, nullptr);
    v_elem_ptr(g_.go, V, f_obeg, nullptr); v_elem_int(g_.go, offsetof(SG, current_idx_), 8, f_ocnt, nullptr);
    s->current_tick_quantum_ = g_.q; s->group_zero_ = g_.ng - 1; s->firing_group_count_ = g_.ng;
    s->dag_finalized_ = true; s->running_ = false; s->first_tick_ = false; s->wdt_period_ticks_ = 0; s->async_event_list_empty_hint_ = true;
    { auto& v = s->registered_clocks_._M_impl; v._M_start = v._M_finish = v._M_end_of_storage = nullptr; }
    v_assume(s->elapsed_ticks_ <= tick(0));
    sl_ = new NullSleeperThread;
    g_.cleared = g_.fired = g_.any = g_.scheds = g_.cancels = g_.freed = 0; g_.stopped = false;
    return s;
}
static uint64_t qpos() { TQ* p = g_.s->current_tick_quantum_; return p ? uint64_t(p - g_.q) : g_.n; }
static bool order0(void*, uint64_t) { return (qpos() <= g_.n) & ((g_.any == 0) | (g_.lq < qpos())); }
static bool order1(void*, uint64_t) { return (qpos() <= g_.n) & ((g_.any == 0) | (g_.lq < qpos()) | ((g_.lq == qpos()) & (g_.lg < g_.s->current_group_firing_))); }
static bool order2(void*, uint64_t) { uint64_t q = qpos(), g = g_.s->current_group_firing_, e = g_.s->current_event_firing_; return (q <= g_.n) & ((g_.any == 0) | (g_.lq < q) | ((g_.lq == q) & ((g_.lg < g) | ((g_.lg == g) & (g_.le < e))))); }
static bool fired0(void*, uint64_t) { return g_.fired == uint64_t(g_.c < qpos()); }
static bool fired1(void*, uint64_t) { uint64_t q = qpos(); return g_.fired == uint64_t((g_.c < q) | ((g_.c == q) & (g_.k < g_.s->current_group_firing_))); }
static bool fired2(void*, uint64_t) { uint64_t q = qpos(), g = g_.s->current_group_firing_; return g_.fired == uint64_t((g_.c < q) | ((g_.c == q) & ((g_.k < g) | ((g_.k == g) & (g_.g < g_.s->current_event_firing_))))); }
static bool clr0(void*, uint64_t) { return g_.cleared == uint64_t(g_.c < qpos()); }
static bool clr1(void*, uint64_t) { uint64_t q = qpos(); return g_.cleared == uint64_t((g_.c < q) | ((g_.c == q) & (g_.k < g_.s->current_group_firing_))); }
static bool now(void*, uint64_t) { return (g_.s->current_tick_quantum_ == nullptr) | (g_.s->current_tick_ == tick(qpos())); }
static bool elapsed(void*, uint64_t) { return (g_.s->current_tick_quantum_ == nullptr) | (g_.s->elapsed_ticks_ <= tick(qpos())); }
static bool elapsed1(void*, uint64_t) { return g_.s->elapsed_ticks_ == g_.s->current_tick_; }
static bool runs(void*, uint64_t) { return g_.stopped != g_.s->running_; }
static bool more(void*, uint64_t) { return (g_.s->current_tick_quantum_ != nullptr) & (qpos() < g_.n); }
extern "C" void vh_run() {
    Scheduler* s = any();
    v_inv(order0, nullptr, 0); v_inv(order1, nullptr, 0); v_inv(order2, nullptr, 0);
    v_inv(fired0, nullptr, 0); v_inv(fired1, nullptr, 0); v_inv(fired2, nullptr, 0);
    v_inv(clr0, nullptr, 0); v_inv(clr1, nullptr, 0); v_inv(now, nullptr, 0); v_inv(runs, nullptr, 0); v_inv(more, nullptr, 0);
    s->run(Scheduler::INDEFINITE, v_bool("exacting"), false);
    uint64_t end = qpos();
    v_assert(g_.fired == uint64_t(g_.c < end), "run.fires-every-event-up-to-where-it-ends");
    v_assert(g_.cleared == g_.fired, "run.fired-events-are-gone");
    v_assert(g_.stopped || end == g_.n || s->latest_continuing_event_ < tick(end), "run.ends-only-when-stopped-or-nothing-continuing-is-pending");
    v_assert(!s->running_ && s->current_group_firing_ == 0, "run.not-running-afterwards");
    v_assert(g_.scheds == 0, "run.no-stop-event-without-a-limit");
}
extern "C" void vh_run_limit() {
    Scheduler* s = any();
    uint64_t t = v_u64("ticks"), now = s->current_tick_, el = s->elapsed_ticks_, first = g_.q->tick; bool ex = v_bool("exacting"), none = v_bool("nothing pending");
    v_assume(t < (1ull << 62) && now < (1ull << 62) && (el + 1 == now || now == 0 && el == 0) && (none || first >= now));
    if (none) s->current_tick_quantum_ = nullptr;
    throw_ = true; bool begun = false;
    try { s->run(t, ex, false); } catch (const Begun&) { begun = true; }
    if (t == 0) { v_assert(!begun && s->current_tick_ == now && s->elapsed_ticks_ == el, "run-limit.zero-does-nothing"); return; }
    v_assert(begun == (!none && first <= now + t), "run-limit.runs-when-something-is-due");      // an event at now + t is looked at and left pending
    if (begun) {
        v_cover("runs"); v_assert(g_.srel == t - 1 && g_.sgroup == 0 && g_.scont == ex, "run-limit.stop-event-at-the-last-tick-behind-every-other-event");
        v_assert(s->current_tick_ == now && s->elapsed_ticks_ == el, "run-limit.time-unchanged-before-the-run");
    } else {
        v_assert(s->current_tick_ == (ex ? now + t : now), "run-limit.idle-exacting-run-advances-by-its-length");
        v_assert(!ex || s->elapsed_ticks_ + 1 == s->current_tick_, "run-limit.elapsed-time-trails-by-one");
        v_assert(ex || s->elapsed_ticks_ == el, "run-limit.idle-run-keeps-time");
        v_assert(!s->running_ && s->current_tick_quantum_ == (none ? nullptr : g_.q), "run-limit.pending-kept");
    }
}
extern "C" void vh_next_event() {
    Scheduler* s = any();
    v_assert(s->nextEventTick() == tick(0), "next-event.is-the-first-pending");
    s->current_tick_quantum_ = nullptr;
    v_assert(s->nextEventTick() == Scheduler::INDEFINITE, "next-event.none");
}
extern "C" void vh_watchdog() {
    Scheduler* s = any();
    uint64_t p = v_u64("period"); s->wdt_period_ticks_ = p; v_assume(s->prev_wdt_tick_ <= s->current_tick_);
    v_assert(s->watchdogExpired_() == (p != 0 && s->current_tick_ - s->prev_wdt_tick_ >= p), "watchdog.expires-a-period-after-the-last-kick");
}

// PROPERTY: P03
// ASSUME: payload of 8 bytes; fewer than 2^30 payloads in flight and events allocated
// ASSUME: Scheduler::scheduleEvent and cancelEvent are used through their contracts (sched_event.cpp, sched_cancel.cpp); handlers are an arbitrary recorded call
// REPLACE: sparta::Scheduler::scheduleEvent( => st_schedule
// REPLACE: sparta::Scheduler::cancelEvent(sparta::Scheduleable const*) => st_cancel
// REPLACE: sparta::Scheduler::cancelEvent(sparta::Scheduleable const*, unsigned long) => st_cancel_at
// REPLACE: sparta::SpartaHandler::operator()(void const*) const => st_handler
// REPLACE: sparta::Clock::getTick(unsigned long const&) const => st_tick
#include "payload_model.h"
extern "C" {
void st_schedule(Scheduler*, const Scheduleable* w, uint64_t rel, uint32_t, bool, bool) { h_.sched = h_.sched + 1; h_.who = w; h_.rel = rel; if (h_.throws) throw 1; }
void st_cancel(Scheduler*, const Scheduleable* w) { h_.cancelled = h_.cancelled + 1; h_.who = w; }
void st_cancel_at(Scheduler*, const Scheduleable* w, uint64_t rel) { h_.cancelled = h_.cancelled + 1; h_.who = w; h_.rel = rel; }
uint64_t st_tick(const void*, const uint64_t* c) { return v_uf("tick", *c); }
void st_handler(const SpartaHandler*, const void* dat) {
    h_.handled = h_.handled + 1; h_.value = *(const uint64_t*)dat; h_.schedInHandler = h_.d->scheduled_;
    // whatever the handler does with its own event: reschedule, cancel, drop every handle
    if (h_.mode == 1) { h_.d->scheduleRelativeTick(v_u64("again"), h_.s); }
    if (h_.mode == 2) { h_.d->cancel(); }
    if (h_.mode == 3) { h_.d->scheduleable_handle_count_ = 0; ((Scheduleable*)h_.d)->reclaim_(); }
    h_.liveInHandler = h_.d->loc_ != h_.e->inflight_pl_.end() && *(const uint64_t*)dat == h_.value;
}
}
// the in-flight list: `seq` of length n, node of an arbitrary watched proxy consistent
extern "C" void vh_prepare() {
    E* e = any();
    v_assume(h_.nf > 0 || h_.nu < h_.na);   // addProxies_ has been called when needed (vh_add_proxies)
    v_assume(h_.nu + 1 < g_.cap);
    uint64_t x = v_u64("payload"), n = g_.n, i = v_u32("i"), node = A(n);
    bool fromFree = h_.nf > 0;
    ScheduleableHandle r = e->preparePayload(x);
    P* p = (P*)r.scheduleable_; uint64_t q = p - h_.p;
    if (fromFree) { v_cover("recycled"); v_assert(q == fr(h_.nf - 1), "prepare.recycled"); } else { v_cover("fresh"); v_assert(q == h_.nu, "prepare.fresh"); }
    v_assert(q < h_.na && !busy(q), "prepare.not-in-flight-already");
    v_assert(p->getPayload_() == x && (void*)p->payload_ == f_payload(q, nullptr), "prepare.holds-the-data");
    v_assert(!p->scheduled_ && !p->cancelled_ && !p->delivering_ && p->scheduleable_handle_count_ == 1, "prepare.schedulable-and-owned-by-the-handle");
    v_assert((uint32_t)p->loc_.getIndex() == node && *p->loc_ == p, "prepare.in-flight");
    checkList(&e->inflight_pl_, i, n + 1, [&](uint64_t k) { return k < n ? A(k) : node; });
    v_assert(e->free_idx_ == (fromFree ? h_.nf - 1 : 0) && e->allocation_idx_ == h_.nu + (fromFree ? 0 : 1), "prepare.free-list");
    v_assume(h_.g != q);
    v_assert(h_.p[h_.g].getPayload_() == val(h_.g) && h_.p[h_.g].scheduled_ == f_sched(h_.g, nullptr) && (uint32_t)h_.p[h_.g].loc_.getIndex() == f_node(h_.g, nullptr), "prepare.other-payloads-unchanged");
    v_assert(e->getNumOutstandingEvents() == n + 1, "prepare.counted");
    r.scheduleable_ = nullptr;
}
extern "C" void vh_schedule() {
    E* e = any();
    v_assume(inFlight(h_.g));
    P* p = h_.p + h_.g; bool s0 = p->scheduled_, c0 = p->cancelled_; uint64_t rel = v_u64("rel"); h_.throws = v_bool("scheduler refuses");
    bool refused = false, threw = false;
    try { p->P::scheduleRelativeTick(rel, h_.s); } catch (int) { threw = true; } catch (const SpartaException&) { refused = true; }
    v_assert(refused == (s0 || c0), "schedule.refused-exactly-when-scheduled-or-cancelled");
    if (refused) { v_assert(h_.sched == 0 && p->scheduled_ == s0, "schedule.refusal-changes-nothing"); return; }
    v_assert(h_.sched == 1 && h_.who == p && h_.rel == rel, "schedule.once-at-the-requested-time");
    v_assert(threw == h_.throws && p->scheduled_ == !threw, "schedule.marked");
    v_assert(p->getPayload_() == val(h_.g), "schedule.data-kept");
}
// the state after proxy w = (at position k) was reclaimed
static void checkReclaimed(E* e, uint64_t q, uint64_t k, uint64_t node) {
    uint64_t i = v_u32("i"), n = g_.n;
    v_assert(h_.p[q].loc_ == e->inflight_pl_.end() && !h_.p[q].cancelled_ && !h_.p[q].scheduled_ && !h_.p[q].delivering_, "reclaim.ready-for-reuse");
    v_assert(e->free_idx_ == h_.nf + 1 && e->free_pl_[h_.nf] == h_.p + q, "reclaim.on-the-free-list-once");
    checkList(&e->inflight_pl_, i, n - 1, [&](uint64_t j) { return j < k ? A(j) : A(j + 1); });
}
static void checkKept(E* e, uint64_t q) {
    v_assert(e->free_idx_ == h_.nf && e->inflight_pl_.size() == g_.n && (uint32_t)h_.p[q].loc_.getIndex() == nodeOf(q) && h_.p[q].getPayload_() == val(q), "reclaim.not-while-in-use");
}
extern "C" void vh_deliver() {
    E* e = any();
    v_assume(inFlight(h_.g)); uint64_t k = pos(nodeOf(h_.g)); v_assume(h_.nf < h_.na);
    P* p = h_.d = h_.p + h_.g; bool s0 = p->scheduled_; uint32_t c = p->scheduleable_handle_count_; h_.mode = v_u8("what the handler does") & 3;
    bool c0 = p->cancelled_; v_assume(!(s0 && c0));
    bool threw = false;
    try { p->deliverPayload_(); } catch (const SpartaException&) { threw = true; }
    v_assert(threw == !s0, "deliver.only-what-is-scheduled");
    if (threw) { v_cover("not scheduled"); v_assert(h_.handled == 0, "deliver.only-what-is-scheduled"); return; }
    v_assert(h_.handled == 1, "deliver.exactly-once");
    v_assert(h_.value == val(h_.g), "deliver.the-data-it-was-prepared-with");
    v_assert(!h_.schedInHandler, "deliver.not-pending-anymore-in-the-handler");
    v_assert(h_.liveInHandler, "deliver.payload-lives-until-the-handler-returns");
    bool again = h_.mode == 1, drop = h_.mode == 3;
    if (!again && (c == 0 || drop)) { v_cover("reclaimed"); checkReclaimed(e, h_.g, k, nodeOf(h_.g)); }
    else { v_cover("kept"); checkKept(e, h_.g); v_assert(p->scheduled_ == again && !p->delivering_, "deliver.state-kept"); }
}
extern "C" void vh_cancelled() {
    E* e = any();
    v_assume(inFlight(h_.g)); uint64_t k = pos(nodeOf(h_.g)); v_assume(h_.nf < h_.na);
    P* p = h_.p + h_.g; uint32_t c = p->scheduleable_handle_count_;
    p->eventCancelled_();
    if (c == 0) { v_cover("reclaimed"); checkReclaimed(e, h_.g, k, nodeOf(h_.g)); }
    else { v_cover("kept"); checkKept(e, h_.g); v_assert(!p->scheduled_ && p->cancelled_, "cancel.not-schedulable-anymore"); }
}
// a handle keeps the payload; the last handle that goes releases it unless it is pending
extern "C" void vh_handle_drop() {
    E* e = any();
    v_assume(inFlight(h_.g)); uint64_t k = pos(nodeOf(h_.g)); v_assume(h_.nf < h_.na);
    P* p = h_.p + h_.g; uint32_t c = p->scheduleable_handle_count_; v_assume(c > 0 && c < 1000000);
    bool s0 = p->scheduled_;
    { ScheduleableHandle a; a.scheduleable_ = p; }         // one of the c handles goes
    if (c == 1 && !s0) { v_cover("reclaimed"); checkReclaimed(e, h_.g, k, nodeOf(h_.g)); }
    else { v_cover("kept"); checkKept(e, h_.g); v_assert(p->scheduleable_handle_count_ == c - 1 && p->scheduled_ == s0, "handle.counted"); }
}
// every other way handles come and go keeps the count exact
extern "C" void vh_handle_count() {
    E* e = any();
    v_assume(inFlight(h_.g));
    P* p = h_.p + h_.g; uint32_t c = p->scheduleable_handle_count_; v_assume(c > 0 && c < 1000000);
    ScheduleableHandle a; a.scheduleable_ = p; bool s0 = p->scheduled_;        // one of the c handles
    { ScheduleableHandle b(a); v_assert(p->scheduleable_handle_count_ == c + 1 && b.scheduleable_ == p && a.scheduleable_ == p, "handle.copy"); }
    v_assert(p->scheduleable_handle_count_ == c, "handle.copy-released");
    { ScheduleableHandle b; b = a; v_assert(p->scheduleable_handle_count_ == c + 1 && b == a && !(b != a) && b.operator->() == p, "handle.assign"); b = a; v_assert(p->scheduleable_handle_count_ == c + 1, "handle.assign-again"); }
    { ScheduleableHandle b(p), d(*p); v_assert(p->scheduleable_handle_count_ == c + 2, "handle.from-pointer"); d = ScheduleableHandle(); v_assert(p->scheduleable_handle_count_ == c + 1, "handle.assign-empty"); }
    v_assert(p->scheduleable_handle_count_ == c, "handle.released");
    { ScheduleableHandle& x = a; a = x; v_assert(p->scheduleable_handle_count_ == c && a.scheduleable_ == p, "handle.self-assign"); }
    ScheduleableHandle m(std::move(a)); v_assert(p->scheduleable_handle_count_ == c && m.scheduleable_ == p && !a.scheduleable_, "handle.move");
    checkKept(e, h_.g); v_assert(p->scheduled_ == s0, "handle.nothing-released");
    m.scheduleable_ = nullptr;
}
// the pool grows by whole proxies that are neither in flight nor free yet
extern "C" void vh_add_proxies() {
    E* e = any();
    new (&e->allocated_proxies_) E::ProxyAllocation(); new (&e->free_pl_) E::ProxyFreeList(); e->free_idx_ = 0; e->allocation_idx_ = 0;
    *(uint32_t*)&e->payload_proxy_allocation_cadence_ = 16;
    { Scheduleable* t = new (&e->prototype_) Scheduleable(SpartaHandler("x"), 0, SchedulingPhase::Tick); (void)t; }
    e->addProxies_();
    v_assert(e->allocated_proxies_.size() == 16 && e->free_pl_.size() == 16, "pool.grows-by-the-cadence");
    for (int i = 0; i < 16; ++i) {
        P* p = e->allocated_proxies_[i].get();
        v_assert(p->parent_ == e && p->loc_ == e->inflight_pl_.end() && !p->scheduled_ && !p->cancelled_ && !p->delivering_ && p->scheduleable_handle_count_ == 0, "pool.new-proxies-are-idle");
        for (int j = 0; j < i; ++j) v_assert(e->allocated_proxies_[j].get() != p, "pool.distinct");
    }
}

// PROPERTY: P03
// ASSUME: Scheduleable::cancel and isScheduled of one payload are used through their contracts (payload.cpp: cancelled; sched_cancel.cpp); the traversal continues behind a node that is removed (FastList erase contract, fastlist.cpp: list.order-forward)
// REPLACE: =sparta::Scheduleable::cancel() => st_cancel
// REPLACE: =sparta::Scheduleable::cancel(unsigned long) => st_cancel_at
// REPLACE: =sparta::Scheduleable::isScheduled(unsigned long) const => st_is
#include "payload_model.h"
static uint64_t watch() { return pos(nodeOf(h_.g)); }
static uint64_t crit_, matches_; static bool none_;
static bool hit(uint64_t q) { return val(q) == crit_; }
static bool at_(uint64_t q) { return v_uf("pending at the time", q) & 1; }
static uint64_t C(uint64_t i) { return v_uf("matches before", i); }
static void* f_pvc(uint64_t k, void*) { axNode(k); uint64_t i = pos(k); v_assume(!(none_ & (hit(pv(k)) | at_(pv(k))))); v_assume((uint32_t)C(i + 1) == (uint32_t)(C(i) + hit(pv(k)))); return h_.p + pv(k); }
static E* anyc() { E* e = any(); v_elem_ptr(g_.nodes, offsetof(N, type_storage), f_pvc, nullptr); v_assume(inFlight(h_.g)); axPos(nodeOf(h_.g)); v_assume(C(0) == 0); crit_ = v_u64("criteria"); return e; }
static bool only_;
extern "C" {
void st_cancel(Scheduleable* s) { v_assert(!only_ | hit(static_cast<P*>(s) - h_.p), "cancel-if.only-what-matches"); if (s == h_.p + h_.g) h_.cancelled = h_.cancelled + 1; }
void st_cancel_at(Scheduleable* s, uint64_t rel) { v_assert(rel == h_.rel, "cancel-at.the-time"); if (s == h_.p + h_.g) { h_.cancelled = h_.cancelled + 1; if (at_(h_.g)) h_.p[h_.g].scheduled_ = false; } }
bool st_is(const Scheduleable* s, uint64_t rel) { v_assert(rel == h_.rel, "is-scheduled.the-time"); return at_(static_cast<const P*>(s) - h_.p); }
}
static uint64_t at_node(uint64_t v) { return (uint32_t)v == 0xffffffffu ? g_.n : pos((uint32_t)v); }
static bool in(uint64_t v) { return ((uint32_t)v == 0xffffffffu) | (((uint32_t)v < g_.cap) & (pos((uint32_t)v) < g_.n)); }
static bool all(void*, uint64_t v) { return in(v) & (h_.cancelled == (watch() < at_node(v))); }
extern "C" void vh_cancel_every() {
    E* e = anyc(); v_inv(all, nullptr, 1);
    uint32_t c = e->cancel();
    v_assert(h_.cancelled == 1, "cancel.every-payload-in-flight-once");
    v_assert(c == (uint32_t)g_.n, "cancel.returns-the-number");
}
static bool some(void*, uint64_t v) { return in(v) & (h_.cancelled == ((watch() < at_node(v)) & hit(h_.g))); }
static bool count(void*, uint64_t c, uint64_t v) { return !in(v) | ((uint32_t)c == (uint32_t)C(at_node(v))); }
extern "C" void vh_cancel_if() {
    E* e = anyc(); v_inv(some, nullptr, 1); v_inv2(count, nullptr); only_ = true;
    uint32_t c = e->cancelIf(crit_);
    v_assert(h_.cancelled == (hit(h_.g) ? 1 : 0), "cancel-if.exactly-what-matches");
    v_assert(c == (uint32_t)C(g_.n), "cancel-if.returns-the-number");
}
static uint8_t s0_;
static bool somet(void*, uint64_t v) { bool d = watch() < at_node(v); return in(v) & (h_.cancelled == d) & (h_.p[h_.g].scheduled_ == (s0_ & !(d & at_(h_.g)))); }
static bool countt(void*, uint64_t c, uint64_t v) { return !in(v) | ((uint32_t)c == (uint32_t)((watch() < at_node(v)) & s0_ & at_(h_.g))); }
extern "C" void vh_cancel_at_time() {
    E* e = anyc(); s0_ = h_.p[h_.g].scheduled_; v_inv(somet, nullptr, 1); v_inv2(countt, nullptr); h_.rel = v_u64("rel");
    uint32_t c = e->cancel(Clock::Cycle(h_.rel));
    v_assert(h_.cancelled == 1, "cancel-at.every-payload-is-asked-once");
    v_assert(c == (uint32_t)(s0_ & at_(h_.g)), "cancel-at.returns-the-number");      // the others are not pending at that time
}
static bool seen(void*, uint64_t v) { return in(v) & (!(watch() < at_node(v)) | !hit(h_.g)); }
extern "C" void vh_confirm() {
    E* e = anyc(); v_inv(seen, nullptr, 1);
    bool r = e->confirmIf(crit_);
    if (!r) { v_cover("no match"); v_assert(!hit(h_.g), "confirm.every-payload-is-seen"); } else v_cover("match");
}
static bool seent(void*, uint64_t v) { return in(v) & (!(watch() < at_node(v)) | !at_(h_.g)); }
extern "C" void vh_is_scheduled_at() {
    E* e = anyc(); v_inv(seent, nullptr, 1); h_.rel = v_u64("rel");
    bool r = e->isScheduled(Clock::Cycle(h_.rel));
    if (!r) { v_cover("not scheduled"); v_assert(!at_(h_.g), "is-scheduled-at.every-payload-is-seen"); } else v_cover("scheduled");
    v_assert(e->isScheduled(), "is-scheduled.something-in-flight");
}
static bool inb(void*, uint64_t v) { return in(v); }
extern "C" void vh_none() {
    E* e = anyc(); none_ = true; v_inv(inb, nullptr, 1); h_.rel = v_u64("rel");
    v_assert(!e->confirmIf(crit_), "confirm.only-what-is-there");
    v_assert(!e->isScheduled(Clock::Cycle(h_.rel)), "is-scheduled-at.only-what-is-pending");
}
extern "C" void vh_cancel_if_function() {
    E* e = anyc(); v_inv(some, nullptr, 1); v_inv2(count, nullptr); only_ = true;
    uint32_t c = e->cancelIf([](const uint64_t& x) { return x == crit_; });
    v_assert(h_.cancelled == (hit(h_.g) ? 1 : 0), "cancel-if-function.exactly-what-matches");
    v_assert(c == (uint32_t)C(g_.n), "cancel-if-function.returns-the-number");
}
extern "C" void vh_confirm_function() {
    E* e = anyc(); v_inv(seen, nullptr, 1);
    bool r = e->confirmIf([](const uint64_t& x) { return x == crit_; });
    if (!r) { v_cover("no match"); v_assert(!hit(h_.g), "confirm-function.every-payload-is-seen"); } else v_cover("match");
}

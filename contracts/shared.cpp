// PROPERTY: P13
// ASSUME: GlobalEvent::schedule runs the update handler once per call, that many cycles later (properties P01 and P03); here it is a recorder
// REPLACE: sparta::GlobalEvent<(sparta::SchedulingPhase)1>::schedule(unsigned long const&) => st_sched
// REPLACE: sparta::GlobalEvent<(sparta::SchedulingPhase)1>::GlobalEvent(sparta::Clock const*, sparta::SpartaHandler const&) => st_ctor
#include "verif.h"
#include "sparta/resources/SharedData.hpp"
template <bool M> using D = sparta::SharedData<uint64_t, M>;
struct S { bool v; uint64_t x; };
struct G { uint64_t sched, delay; };
static G g_;
extern "C" {
void st_sched(void*, const uint64_t& d) { ++g_.sched; g_.delay = d; }
void st_ctor(void*, const void*, const void*) {}
}
template <bool M> static S ps(D<M>* d) { return {d->isValid(), d->isValid() ? static_cast<const D<M>*>(d)->read() : 0}; }
template <bool M> static S ns(D<M>* d) { return {d->isValidNS(), d->isValidNS() ? static_cast<const D<M>*>(d)->readNS() : 0}; }
static bool eq(S a, S b) { return (a.v == b.v) & (!a.v | (a.x == b.x)); }
template <bool M> static D<M>* any() {
    auto* d = v_obj<D<M>>("d");
    for (int i = 0; i < 2; ++i) { new (&d->data_[i]) sparta::utils::ValidValue<uint64_t>(); if (v_bool("valid")) d->data_[i] = v_u64("value"); }
    d->current_state_ = v_bool("present") ? 1 : 0;
    g_.sched = 0;
    return d;
}
template <bool M> static void write() {
    auto* d = any<M>();
    S p = ps(d);
    uint64_t x = v_u64("x"), y = v_u64("y");
    d->write(static_cast<const uint64_t&>(x));
    v_assert(eq(ps(d), p), "write.present-state-unchanged");
    v_assert(eq(ns(d), S{true, x}), "write.next-state-holds-the-value");
    v_assert(g_.sched == (M ? 0 : 1) && (M || g_.delay == 1), "write.update-scheduled-for-the-next-cycle");
    bool again = v_bool("again");
    if (again) { uint64_t t = y; d->write(std::move(t)); v_assert(eq(ps(d), p), "write.present-state-unchanged"); v_assert(eq(ns(d), S{true, y}), "write.next-state-holds-the-last-value"); }
    uint64_t n = g_.sched;
    if (!M) v_assert(n >= 1, "write.update-scheduled");
    d->update_();
    v_assert(eq(ps(d), S{true, again ? y : x}), "update.last-value-becomes-present");
    v_assert(!d->isValidNS(), "update.next-state-empty");
    if (!M && n > 1) { d->update_(); v_assert(eq(ps(d), S{true, again ? y : x}), "update.further-updates-of-the-cycle-keep-it"); v_assert(!d->isValidNS(), "update.next-state-empty"); }
    v_cover("done");
}
extern "C" void vh_sd_write_auto() { write<false>(); }
extern "C" void vh_sd_write_manual() { write<true>(); }
template <bool M> static void others() {
    auto* d = any<M>();
    S p = ps(d), n = ns(d);
    uint64_t x = v_u64("x");
    unsigned k = v_u8("op");
    bool threw = false;
    switch (k) {
    case 0: d->writePS(static_cast<const uint64_t&>(x)); p = {true, x}; break;
    case 1: { uint64_t t = x; d->writePS(std::move(t)); p = {true, x}; break; }
    case 2: d->clear(); p.v = n.v = false; break;
    case 3: d->clearPS(); p.v = false; break;
    case 4: d->clearNS(); n.v = false; break;
    case 5: try { d->access() = x; } catch (const sparta::SpartaException&) { threw = true; } v_assert(threw == !p.v, "access.rejected-when-invalid"); p.x = x; break;
    case 6: try { d->accessNS() = x; } catch (const sparta::SpartaException&) { threw = true; } v_assert(threw == !n.v, "accessNS.rejected-when-invalid"); n.x = x; break;
    case 7: try { (void)static_cast<const D<M>*>(d)->read(); } catch (const sparta::SpartaException&) { threw = true; } v_assert(threw == !p.v, "read.rejected-when-invalid"); break;
    case 8: try { (void)static_cast<const D<M>*>(d)->readNS(); } catch (const sparta::SpartaException&) { threw = true; } v_assert(threw == !n.v, "readNS.rejected-when-invalid"); break;
    default: return;
    }
    v_assert(eq(ps(d), p), "present-state");
    v_assert(eq(ns(d), n), "next-state");
    v_assert(g_.sched == 0, "only-writes-schedule-updates");
}
extern "C" void vh_sd_others_auto() { others<false>(); }
extern "C" void vh_sd_others_manual() { others<true>(); }
extern "C" void vh_sd_update_manual() {
    auto* d = any<true>();
    S n = ns(d);
    d->update();
    v_assert(eq(ps(d), n), "update.next-becomes-present");
    v_assert(!d->isValidNS(), "update.next-state-empty");
}

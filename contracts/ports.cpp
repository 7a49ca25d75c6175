// PROPERTY: P05
// ASSUME: preparePayload and Scheduleable::schedule are used through their contracts (payload.cpp: P03, sched_event.cpp: P01); handlers are an arbitrary recorded call; no collector attached; delays below 2^64 in total
// REPLACE: sparta::PhasedPayloadEvent<unsigned long>::preparePayload(unsigned long const&) => st_prepare
// REPLACE: sparta::Scheduleable::schedule(unsigned long, sparta::Clock const*) => st_schedule
// REPLACE: sparta::SpartaHandler::operator()(void const*) const => st_handler
// REPLACE: sparta::SpartaHandler::operator()() const => st_handler0
// REPLACE: sparta::SpartaHandler::operator bool() const => st_has_handler
// REPLACE: sparta::Scheduler::getCurrentFiringEvent() const => st_firing
// OPAQUE: getLocation
// OPAQUE: sparta::SpartaHandler::getName
#include "verif.h"
#include "sparta/sparta.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "src/Scheduleable.cpp"
using namespace sparta;
using I = DataInPort<uint64_t>;
struct H { uint64_t prepared, value, scheds, delay, handled, got; const Scheduleable* who; const Clock* clk; bool has, stored; I* in; SignalInPort* sig; Scheduleable* proxy; uint64_t p0; };
static H h_;
extern "C" {
ScheduleableHandle st_prepare(void*, const uint64_t& v) { h_.prepared = h_.prepared + 1; h_.value = v; return ScheduleableHandle(h_.proxy); }
void st_schedule(const Scheduleable* s, uint64_t d, const Clock* c) { h_.scheds = h_.scheds + 1; h_.who = s; h_.delay = d; h_.clk = c; }
void st_handler(void*, const void* d) { h_.handled = h_.handled + 1; h_.got = *(const uint64_t*)d; h_.stored = h_.in->dataReceivedThisCycle() && h_.in->peekData() == h_.got; }
void st_handler0(void*) { h_.handled = h_.handled + 1; h_.stored = h_.sig->dataReceivedThisCycle(); }
const Scheduleable* st_firing(void*) { return h_.proxy; }     // used in an error message only
bool st_has_handler(void*) { return h_.has; }
}
// virtual functions of the port (only getLocation, for error messages, may be called)
extern "C" void st_loc(std::string* r, void*) { new (r) std::string(); }
#define L4 (void*)st_loc, (void*)st_loc, (void*)st_loc, (void*)st_loc
static void* const vt_[32] = { L4, L4, L4, L4, L4, L4, L4, L4 };
static void start() {
    h_.prepared = 0; h_.scheds = 0; h_.handled = 0; h_.stored = false; h_.has = v_bool("a handler is registered");
    h_.proxy = v_obj<Scheduleable>("proxy"); v_assume(h_.proxy->scheduleable_handle_count_ < (1u << 30)); h_.proxy->scheduleable_handle_count_ = h_.proxy->scheduleable_handle_count_ + 1;
}
// sends, delays and phases
template <class P, class F> static void sendTo(P* p, Scheduler* s, const Scheduleable* ev, uint64_t rel, bool isData, uint64_t v, F&& call) {
    uint64_t d = p->port_delay_, total = rel + d; const Clock* c = p->receiver_clock_;
    uint64_t stamp = p->data_valid_time_stamp_; bool val = p->data_.valid_;
    v_assume(total >= rel);
    SchedulingPhase own = ev->sched_phase_, cur = s->current_scheduling_phase_;
    bool late = total == 0 && own < cur, now = total == 0 && own == cur;
    try { call(); }
    catch (const SpartaException&) { v_assert(late, "send.refused-only-in-a-later-phase"); v_assert(h_.handled == 0 && h_.scheds == 0 && p->data_.valid_ == val, "send.refused-delivers-nothing"); return; }
    v_assert(!late, "send.zero-delay-into-an-earlier-phase-refused");
    if (now) {
        v_cover("immediate");
        v_assert(h_.scheds == 0 && h_.prepared == 0, "send.immediate-delivery-schedules-nothing");
        v_assert(h_.handled == (h_.has ? 1 : 0), "send.immediate-delivery-calls-the-handler-once");
        v_assert(!h_.has || h_.stored, "send.value-stored-before-the-handler");
        v_assert(p->data_.valid_ && p->data_valid_time_stamp_ == s->current_tick_, "send.received-now");
        if (isData && h_.has) v_assert(h_.got == v, "send.value-unaltered");
    } else {
        v_cover("scheduled");
        v_assert(h_.handled == 0 && p->data_.valid_ == val && p->data_valid_time_stamp_ == stamp, "send.nothing-delivered-yet");
        v_assert(h_.scheds == 1 && h_.delay == total && h_.clk == c, "send.scheduled-once-after-exactly-the-delay");
        if (isData) v_assert(h_.prepared == 1 && h_.value == v && h_.who == h_.proxy, "send.value-unaltered");
        else v_assert(h_.who == ev, "send.own-event");
    }
}
static I* anyIn(Scheduler* s) {
    I* p = v_obj<I>("in port");
    Clock* c = v_obj<Clock>("receiver clock");
    c->scheduler_ = s; p->scheduler_ = s; p->receiver_clock_ = c; ((DataContainer<uint64_t>*)p)->clock_ = c; *(void**)&p->collector_ = nullptr;
    v_assume(c->period_ != 0); *(void* const**)(void*)p = vt_;
    v_assume(*(uint8_t*)&p->data_.valid_ < 2);
    return p;
}
extern "C" void vh_send() {
    start();
    Scheduler* s = v_obj<Scheduler>("scheduler");
    I* p = h_.in = anyIn(s);
    auto* e = v_obj<PhasedPayloadEvent<uint64_t>>("delivery event");
    *(void**)&p->user_payload_delivery_ = e;
    uint64_t v = v_u64("value"), rel = v_u64("send delay");
    v_assume(e->prototype_.sched_phase_ == ((EventNode*)e)->sched_phase_);
    sendTo(p, s, &e->prototype_, rel, true, v, [&] { p->send_(v, rel); });
}
extern "C" void vh_signal() {
    start();
    Scheduler* s = v_obj<Scheduler>("scheduler");
    SignalInPort* p = h_.sig = v_obj<SignalInPort>("in port");
    Clock* c = v_obj<Clock>("receiver clock");
    c->scheduler_ = s; p->scheduler_ = s; p->receiver_clock_ = c; ((DataContainer<bool>*)p)->clock_ = c;
    v_assume(*(uint8_t*)&p->data_.valid_ < 2);
    *(void* const**)(void*)p = vt_;
    auto* e = v_obj<PhasedUniqueEvent>("delivery event");
    *(void**)&p->user_signal_delivery_ = e;
    v_assume(((Scheduleable*)e)->sched_phase_ == ((EventNode*)e)->sched_phase_);
    uint64_t rel = v_u64("send delay");
    sendTo(p, s, (Scheduleable*)e, rel, false, 1, [&] { p->send_(rel); });
}
extern "C" void vh_receive() {
    start();
    Scheduler* s = v_obj<Scheduler>("scheduler");
    I* p = h_.in = anyIn(s);
    uint64_t v = v_u64("value"), w = v;
    p->receivePortData_(w);
    v_assert(h_.handled == (h_.has ? 1 : 0), "receive.calls-the-handler-once");
    v_assert(!h_.has || (h_.got == v && h_.stored), "receive.value-unaltered");
    v_assert(p->dataReceived() && p->dataReceivedThisCycle() && p->peekData() == v, "receive.value-stored");
    v_assert(h_.scheds == 0 && h_.prepared == 0, "receive.schedules-nothing");
}
extern "C" void vh_receive_signal() {
    start();
    Scheduler* s = v_obj<Scheduler>("scheduler");
    SignalInPort* p = h_.sig = v_obj<SignalInPort>("in port");
    Clock* c = v_obj<Clock>("receiver clock");
    c->scheduler_ = s; p->scheduler_ = s; p->receiver_clock_ = c; ((DataContainer<bool>*)p)->clock_ = c;
    p->receiveSignal_();
    v_assert(h_.handled == (h_.has ? 1 : 0) && (!h_.has || h_.stored), "receive.calls-the-handler-once");
    v_assert(p->dataReceived() && p->dataReceivedThisCycle() && p->peekData(), "receive.signal-stored");
}
extern "C" void vh_container() {
    start();
    Scheduler* s = v_obj<Scheduler>("scheduler");
    I* p = anyIn(s);
    uint64_t v = p->data_.value_, t = p->data_valid_time_stamp_; bool valid = p->data_.valid_; unsigned op = v_u8("op"); v_assume(op < 5);
    try {
        if (op == 0) { v_assert(p->pullData() == v, "container.pull-returns-the-datum"); v_assert(valid, "container.pull-needs-a-datum"); v_assert(!p->dataReceived(), "container.pull-takes-the-datum"); }
        if (op == 1) { v_assert(p->peekData() == v && valid && p->dataReceived(), "container.peek"); }
        if (op == 2) { p->clearData(); v_assert(!p->dataReceived() && !p->dataReceivedThisCycle(), "container.clear"); }
        if (op == 3) { v_assert(p->dataReceived() == valid && p->dataReceivedThisCycle() == (valid && t == s->current_tick_), "container.received"); }
        if (op == 4) { uint32_t q = p->receiver_clock_->getPeriod(); v_assert(p->getReceivedTimeStamp() == t / q && valid, "container.time-stamp"); }
    } catch (const SpartaException&) { v_assert(!valid && (op == 0 || op == 1 || op == 4), "container.refused-only-without-datum"); v_cover("refused"); }
}

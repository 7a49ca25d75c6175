// PROPERTY: P06
// LEMMA: muldiv.lean
// ASSUME: calculateClockCrossingDelay is used through its contract (clocks.cpp: crossing.*); Clock::getTick(double) of a whole number of cycles is cycles times period (P04 oracle); preparePayload and the scheduler through theirs (P03, P01); handlers are an arbitrary recorded call; no logging, no collector
// ASSUME: products and quotients of two unknowns are uninterpreted functions satisfying the facts of lemmas/muldiv.lean; times stay below 2^63
// OPT: ufarith=1
// REPLACE: sparta::calculateClockCrossingDelay => st_crossing
// REPLACE: sparta::Clock::getTick(double const&) const => st_tick
// REPLACE: sparta::PhasedPayloadEvent<unsigned long>::preparePayload(unsigned long const&) => st_prepare
// REPLACE: sparta::Scheduler::kickTheDog => st_kick
// REPLACE: sparta::SpartaHandler::operator()(void const*) const => st_handler
// REPLACE: sparta::SpartaHandler::operator bool() const => st_has_handler
// REPLACE: sparta::Scheduler::getCurrentFiringEvent() const => st_firing
// REPLACE: sparta::log::MessageSource::operator bool() const => st_off
// REPLACE: sparta::SyncInPort<unsigned long>::computeSendToReceiveTickDelay_ => st_compute
// OPAQUE: getLocation
// OPAQUE: sparta::SpartaHandler::getName
#include "verif.h"
#include "sparta/sparta.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "src/Scheduleable.cpp"
using namespace sparta;
using I = SyncInPort<uint64_t>;
struct H { Scheduler* s; Clock* rc; const Clock* sc; uint64_t now, all, p, cross, sendTicks, prepared, value, scheds, rel, handled, got, kicks; Scheduleable* proxy; bool has, stored; I* in; uint64_t res; bool real, slide; double cyc; };
static H h_;
// multiples of the receiver period
static bool edge(uint64_t t) { return t % h_.p == 0; }
VNOINLINE static void nextLemma(uint64_t e, uint64_t q, uint64_t p) { v_assume(((e != q * p) | (e + p < p)) | (((e + p) / p == q + 1) & ((q + 1) * p == e + p))); }
extern "C" {
uint64_t st_crossing(uint64_t sd, const Clock* sc, uint64_t dd, const Clock* dc) {
    v_assert((sc == h_.sc) & (dc == h_.rc) & (sd == h_.sendTicks) & (dd == h_.in->receive_delay_ticks_), "sync.crossing-of-the-send-and-receive-delays");
    return h_.cross;
}
uint64_t st_tick(const Clock* c, const double&) { v_assert(c == h_.sc, "sync.send-delay-in-sender-cycles"); return h_.sendTicks; }
ScheduleableHandle st_prepare(void*, const uint64_t& v) { h_.prepared = h_.prepared + 1; h_.value = v; return ScheduleableHandle(h_.proxy); }
void st_rel(const Scheduleable* e, uint64_t rel, Scheduler* s) { h_.scheds = h_.scheds + 1; h_.rel = rel; v_assert((e == h_.proxy) & (s == h_.s), "sync.schedules-the-payload"); }
void st_kick(void*) { h_.kicks = h_.kicks + 1; }
void st_handler(void*, const void* d) { h_.handled = h_.handled + 1; h_.got = *(const uint64_t*)d; h_.stored = h_.in->dataReceivedThisCycle() && h_.in->peekData() == h_.got; }
bool st_has_handler(void*) { return h_.has; }
const Scheduleable* st_firing(void*) { return h_.proxy; }
bool st_off(void*) { return false; }
void st_loc(std::string* r, void*) { new (r) std::string(); }
}
// contract of the arrival computation (vh_compute)
extern "C" uint64_t st_compute(I* p, const Clock* sc, double cycles, bool slide, uint64_t prev) {
    if (h_.real) return p->computeSendToReceiveTickDelay_(sc, cycles, slide, prev);
    v_assert((sc == h_.sc) & (cycles == h_.cyc) & (slide == h_.slide) & (prev == p->prev_data_arrival_tick_), "sync.arrival-computed-for-this-send");
    return h_.res;
}
#define L4 (void*)st_loc, (void*)st_loc, (void*)st_loc, (void*)st_loc
static void* const vt_[32] = { L4, L4, L4, L4, L4, L4, L4, L4 };
#define R4 (void*)st_rel, (void*)st_rel, (void*)st_rel, (void*)st_rel
static void* const rt_[16] = { R4, R4, R4, R4 };
static const uint64_t INIT = ~0ull;
static I* any() {
    I* p = h_.in = v_obj<I>("in port"); *(void* const**)(void*)p = vt_;
    h_.s = v_obj<Scheduler>("scheduler"); h_.rc = v_obj<Clock>("receiver clock");
    h_.sc = v_bool("same clock") ? h_.rc : v_obj<Clock>("sender clock");
    h_.rc->scheduler_ = h_.s; const_cast<Clock*>(h_.sc)->scheduler_ = h_.s; p->scheduler_ = h_.s; p->receiver_clock_ = h_.rc; ((DataContainer<uint64_t>*)p)->clock_ = h_.rc; *(void**)&p->collector_ = nullptr;
    auto* e = v_obj<PhasedPayloadEvent<uint64_t>>("forward event"); *(void**)&p->forward_event_ = e;
    h_.p = h_.rc->period_; v_assume(h_.p != 0);
    uint64_t all = v_u64("now plus delays"), delay = v_u64("delays"), wait = v_u32("wait for the edge");
    h_.sendTicks = v_u64("send delay in ticks"); h_.all = all; h_.cross = delay + wait; h_.now = all - delay;
    const_cast<uint64_t&>(p->PREV_DATA_ARRIVAL_TICK_INIT) = INIT;
    uint64_t lim = 1ull << 62;
    v_assume(delay <= all && all < lim && h_.sendTicks <= delay && edge(all + wait));
    p->receive_delay_ticks_ = delay - h_.sendTicks; h_.s->current_tick_ = h_.now;
    v_assume(p->prev_data_arrival_tick_ == INIT || (p->prev_data_arrival_tick_ < lim && edge(p->prev_data_arrival_tick_)));
    v_assume(p->num_in_flight_ < (1u << 30) && *(uint8_t*)&p->cur_is_ready_ < 2 && *(uint8_t*)&p->prev_is_ready_ < 2 && *(uint8_t*)&p->is_continuing_ < 2);
    uint64_t e0 = p->prev_data_arrival_tick_; nextLemma(e0, e0 / h_.p, h_.p);
    h_.real = false; h_.res = v_u64("arrival delay"); h_.cyc = 3;
    h_.prepared = 0; h_.scheds = 0; h_.handled = 0; h_.kicks = 0; h_.has = v_bool("a handler is registered"); h_.stored = false;
    h_.proxy = v_obj<Scheduleable>("payload"); *(void* const**)(void*)h_.proxy = rt_;
    v_assume(h_.proxy->scheduleable_handle_count_ < (1u << 30)); h_.proxy->scheduleable_handle_count_ = h_.proxy->scheduleable_handle_count_ + 1;
    return p;
}
// the arrival time: an edge, never early, sliding only as far as needed
static void arrival(uint64_t at, uint64_t prev, bool slide, uint64_t raw, const char*) {
    v_assert(edge(at), "sync.arrives-on-a-receiver-edge");
    v_assert(at >= h_.all, "sync.never-early");
    if (slide && prev != INIT && raw <= prev) { v_cover("slid"); v_assert(at == prev + h_.p, "sync.slides-to-the-next-receiver-cycle"); }
    else v_assert(at == raw, "sync.no-later-than-needed");
}
extern "C" void vh_compute() {
    I* p = any(); uint64_t prev = p->prev_data_arrival_tick_; bool slide = v_bool("slide");
    h_.real = true;
    uint64_t r = p->computeSendToReceiveTickDelay_(h_.sc, 3.0, slide, prev);
    arrival(h_.now + r, prev, slide, h_.now + h_.cross, "");
    v_assert(p->prev_data_arrival_tick_ == prev, "sync.query-changes-nothing");
}
static void sent(I* p, uint64_t prev, bool slide, bool prog, uint64_t v, uint32_t n0, uint64_t r, bool cont) {
    uint64_t at = h_.now + r;
    v_cover("sent");
    arrival(at, prev, slide, h_.now + h_.cross, "");
    v_assert(prev == INIT || at > prev, "sync.one-datum-per-receiver-cycle-in-order");
    v_assert(p->prev_data_arrival_tick_ == at, "sync.remembers-the-arrival");
    v_assert(h_.scheds == 1 && h_.rel == r && h_.prepared == 1 && h_.value == v, "sync.delivery-scheduled-once-for-the-arrival");
    v_assert(p->num_in_flight_ == n0 + 1, "sync.in-flight-count");
    v_assert(h_.kicks == (prog && cont ? 1 : 0), "sync.forward-progress-reported");
}
extern "C" void vh_send() {
    I* p = any(); uint64_t prev = p->prev_data_arrival_tick_, v = v_u64("value"); bool slide = v_bool("slide"), prog = v_bool("progress"), cont = p->is_continuing_; uint32_t n0 = p->num_in_flight_;
    uint64_t raw = h_.now + h_.cross; bool slides = slide && prev != INIT && raw <= prev;
    h_.slide = slide;
    v_assume(h_.res == (slides ? prev + h_.p - h_.now : h_.cross) && edge(h_.now + h_.res));
    auto* e = (PhasedPayloadEvent<uint64_t>*)*(void**)&p->forward_event_;
    bool late = h_.cross == 0 && !slides && ((EventNode*)e)->sched_phase_ < h_.s->current_scheduling_phase_;
    try { uint64_t r = p->send_(v, h_.sc, uint64_t(3), slide, prog); v_assert(!late, "sync.zero-delay-into-an-earlier-phase-refused"); sent(p, prev, slide, prog, v, n0, r, cont); }
    catch (const SpartaException&) {
        v_cover("refused");
        v_assert((prev != INIT && raw <= prev && !slide) || late, "sync.refused-only-when-the-receiver-cycle-is-taken");
        v_assert(h_.scheds == 0, "sync.refused-sends-nothing");
    }
}
extern "C" void vh_forward() {
    I* p = any(); uint64_t v = v_u64("value"), w = v; uint32_t n0 = p->num_in_flight_;
    v_assume(p->set_ready_tick_ <= h_.now && n0 > 0);
    h_.sc = h_.rc; h_.cyc = 1; h_.slide = false;
    uint64_t prev = p->prev_data_arrival_tick_;
    bool ready = p->set_ready_tick_ == h_.now ? p->prev_is_ready_ : p->cur_is_ready_;
    auto* e = (PhasedPayloadEvent<uint64_t>*)*(void**)&p->forward_event_;
    v_assume(h_.cross != 0 && h_.res == h_.cross);
    try { p->forwardData_(w); } catch (const SpartaException&) { v_assert(!ready && prev != INIT && h_.now + h_.cross <= prev, "forward.refused-only-when-the-next-cycle-is-taken"); return; }
    if (ready) {
        v_cover("delivered");
        v_assert(h_.handled == (h_.has ? 1 : 0) && (!h_.has || (h_.got == v && h_.stored)), "forward.delivers-the-value-once");
        v_assert(p->dataReceivedThisCycle() && p->peekData() == v, "forward.value-stored");
        v_assert(h_.scheds == 0 && p->num_in_flight_ == n0 - 1 && p->prev_data_arrival_tick_ == prev, "forward.no-longer-in-flight");
    } else {
        v_cover("resent");
        v_assert(h_.handled == 0 && h_.scheds == 1 && h_.value == v && h_.rel == h_.cross, "forward.not-ready-tries-again-later");
        v_assert(p->num_in_flight_ == n0, "forward.still-in-flight");
    }
}
extern "C" void vh_ready() {
    I* p = any(); bool r = v_bool("ready"), cur = p->cur_is_ready_, prv = p->prev_is_ready_; uint64_t at = p->set_ready_tick_;
    try { p->setReady(r); } catch (const SpartaException&) { v_assert(h_.now < at || (h_.now == at && r != cur), "ready.refused-only-in-the-past-or-contradictory"); return; }
    v_assert(p->getReady() == r, "ready.is-set");
    v_assert(p->getLatchedReady_(h_.now) == (h_.now > at ? cur : prv), "ready.latched-value-is-that-before-this-cycle");
    v_assert(p->getLatchedReady_(h_.now + 1) == r, "ready.visible-later");
}

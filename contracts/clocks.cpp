// PROPERTY: P04
// LEMMA: muldiv.lean
// ASSUME: products and quotients of two unknowns are uninterpreted functions satisfying the facts of lemmas/muldiv.lean; periods are non-zero and times stay below 2^64
// OPT: ufarith=1
#include "verif.h"
#include "src/Clock.cpp"
using namespace sparta;
static const uint64_t MAX = ~0ull;
static Scheduler* sch_;
static Clock* clk(const char* n) {
    Clock* c = v_obj<Clock>(n);
    c->scheduler_ = sch_;
    v_assume(c->period_ != 0);
    return c;
}
static bool fits(uint64_t c, uint64_t p) { return (c <= MAX / p); }
// lemma instances
// (not inlined: the compiler must not simplify the instances away)
VNOINLINE static void mulLemma(uint64_t c, uint64_t p) { v_assume((c > MAX / p) | ((c * p) / p == c)); }
VNOINLINE static void stepLemma(uint64_t q, uint64_t p) {       // q = x / p for some x, so q * p does not wrap
    v_assume((q * p) / p == q);
    v_assume((q + 1) * p == q * p + p);
    v_assume((q * p + p < p) | ((q * p + p) / p == q + 1));
}
static void nextLemma(uint64_t x, uint64_t p) { stepLemma(x / p, p); }
extern "C" void vh_convert() {
    sch_ = v_obj<Scheduler>("scheduler");
    Clock* c = clk("clock");
    uint64_t p = c->period_, now = sch_->current_tick_, k = v_u64("cycle"), t = v_u64("tick");
    unsigned op = v_u8("op"); v_assume(op < 8);
    if (op == 0) { v_assume(fits(k, p)); mulLemma(k, p);
        uint64_t r = c->getTick(k);
        v_cover("exact");
        v_assert(r == k * p, "time.is-cycles-times-period");
        v_assert(c->getCycle(r) == k, "convert.cycles-to-time-and-back-is-exact"); }
    if (op == 1) { uint64_t r = c->getCycle(t);
        v_assert(r * p <= t && t - r * p < p, "cycle.is-the-last-edge-not-after-the-time"); }
    if (op == 2) { uint64_t r = c->currentCycle();
        v_assert(r * p <= now && now - r * p < p, "current-cycle.is-the-last-edge-not-after-now"); }
    if (op == 3) v_assert(c->currentTick() == now, "current-tick.is-the-scheduler-time");
    if (op == 4) { c->updateElapsedCycles(t); uint64_t r = c->elapsedCycles();
        v_assert(r * p <= t && t - r * p < p, "elapsed.is-the-number-of-whole-cycles"); }
    if (op == 5) { v_assume(k >= 1); v_assert(c->getAbsoluteTick(k) == (k - 1) * p, "absolute.first-cycle-starts-at-zero"); }
    if (op == 6) { uint64_t q = now / p; v_assert(c->isPosedge() == (q * p == now), "edge.exactly-at-multiples-of-the-period");
        v_cover("edge"); }
    if (op == 7) { v_assert(c->getPeriod() == p && c->getScheduler() == sch_, "clock.period"); }
    v_assert(c->period_ == p && sch_->current_tick_ == now, "clock.unchanged");
}
extern "C" void vh_crossing() {
    sch_ = v_obj<Scheduler>("scheduler");
    Clock* s = clk("source");
    Clock* d = v_bool("same clock") ? s : clk("destination");
    uint64_t sp = s->period_, dp = d->period_;
    uint64_t raw = v_u64("now plus delays"), delay = v_u64("total delay"), dd = v_u64("destination delay"), sd = delay - dd, now = raw - delay;
    v_assume(dd <= delay && delay <= raw && raw <= MAX - dp);
    sch_->current_tick_ = now;
    bool onedge = (now / sp) * sp == now;
    nextLemma(now, sp);
    nextLemma(raw, dp);
    uint64_t r;
    try { r = calculateClockCrossingDelay(sd, s, dd, d); }
    catch (const SpartaException&) { v_assert(!onedge, "crossing.refused-only-off-a-source-edge"); return; }
    v_assert(onedge, "crossing.requires-a-source-edge");
    v_cover("delay");
    uint64_t m = raw / dp * dp, rem = raw - m;
    v_assert(r == (rem == 0 ? delay : delay + (dp - rem)), "crossing.first-edge-not-before-the-delays");
    v_assert(r >= delay, "crossing.never-early");
    v_assert((now + r) / dp * dp == now + r, "crossing.lands-on-a-destination-edge");
    v_assert(now + r - raw < dp, "crossing.first-such-edge");
}
extern "C" void vh_reverse() {
    sch_ = v_obj<Scheduler>("scheduler");
    Clock* s = clk("source");
    Clock* d = v_bool("same clock") ? s : clk("destination");
    uint64_t sp = s->period_, dp = d->period_;
    uint64_t raw = v_u64("arrival minus delays"), delay = v_u64("total delay"), dd = v_u64("destination delay"), sd = delay - dd, at = raw + delay;
    v_assume(dd <= delay && raw <= MAX - delay);
    bool onedge = (at / dp) * dp == at;
    nextLemma(at, dp);
    nextLemma(raw, sp);
    uint64_t r;
    try { r = calculateReverseClockCrossingDelay(at, sd, s, dd, d); }
    catch (const SpartaException&) { v_assert(!onedge, "reverse.refused-only-off-a-destination-edge"); return; }
    v_assert(onedge, "reverse.requires-a-destination-edge");
    v_cover("delay");
    v_assert(r >= delay && r <= at, "reverse.sent-early-enough");
    v_assert((at - r) / sp * sp == at - r, "reverse.sent-on-a-source-edge");
    v_assert(raw - (at - r) < sp, "reverse.latest-such-edge");
}

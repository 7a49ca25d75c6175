// PROPERTY: P01
// PROPERTY: P02
// FULL
#include <exception>
#include <map>
#include <memory>
#include <set>
#include <functional>
#include "oracle.h"
#include "sparta/events/Event.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/Precedence.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/kernel/Scheduler.hpp"
using namespace sparta;
typedef SchedulingPhase SP;
struct Ev { int id; SP phase; std::function<void(int)>* f; Scheduleable* s; std::unique_ptr<TreeNode> node; void fire() { (*f)(id); } };
template <SP P> static void make(Ev& e, EventSet* es) {
    auto* p = new Event<P>(es, "ev" + std::to_string(e.id), SpartaHandler::from_member<Ev, &Ev::fire>(&e, "fire"));
    e.phase = P; e.s = p; e.node.reset(p);
}
static void run(Rng& r, bool light) {
    const int N = r.range(1, 7);
    Scheduler sched; ClockManager cm(&sched); RootTreeNode rtn; Clock::Handle clk = cm.makeRoot(&rtn, "root_clk"); cm.normalize(); rtn.setClock(clk.get());
    EventSet es(&rtn);
    CASE("scheduler with %d events", N);
    std::function<void(int)> body; std::vector<Ev> ev(N);
    for (int i = 0; i < N; ++i) {
        ev[i].id = i; ev[i].f = &body;
        switch (r.below(8)) { case 0: make<SP::Trigger>(ev[i], &es); break; case 1: make<SP::Update>(ev[i], &es); break; case 2: make<SP::PortUpdate>(ev[i], &es); break; case 3: make<SP::Flush>(ev[i], &es); break;
            case 4: make<SP::Collection>(ev[i], &es); break; case 5: make<SP::PostTick>(ev[i], &es); break; default: make<SP::Tick>(ev[i], &es); }
        OP("event %d in phase %d", i, (int)ev[i].phase);
    }
    std::vector<std::pair<int, int>> prec;
    for (int k = r.below(5); k > 0; --k) { int a = r.below(N), b = r.below(N); if (a < b && ev[a].phase == ev[b].phase) { OP("event %d precedes %d", a, b); ev[a].s->precedes(*ev[b].s); prec.push_back({a, b}); } }
    // a few events without dependency group would be in group zero (last): all of them are in the tree here
    for (int i = 0; i < N; ++i) if (r.chance(10)) { ev[i].s->setContinuing(false); OP("event %d does not keep the simulation alive", i); }
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    std::map<uint64_t, std::multiset<int>> pend;            // absolute time -> events
    uint64_t lastc = 0;                                     // latest time ever requested by a continuing event
    bool odd = false;       // after a restart at a time other than 0 elapsed time runs ahead by design
    uint64_t lastFired = 0, started = 0; int lastEv = -1; bool inRun = false, stopped = false; unsigned budget = 0; uint64_t firedInTick = ~0ull; std::vector<int> thisTick; uint64_t nfired = sched.getNumFired(), fired = 0;
    auto group = [&](int i) { return ev[i].s->getGroupID(); };
    auto rank = [&](int i) -> uint64_t { return group(i) == 0 ? ~0ull : group(i); };
    auto doSchedule = [&](bool firing, int cur) {
        int i = r.below(N); uint64_t d = r.chance(35) ? 0 : r.chance(70) ? r.range(1, 6) : r.chance(80) ? r.below(60) : (1ull << r.below(34)) + r.below(3);
        uint64_t base = sched.getCurrentTick();
        if (firing && d == 0 && rank(i) < rank(cur)) { if (!r.chance(3)) return; OP("t=%llu schedule %d at 0 (its group has passed)", (unsigned long long)base, i); CHECK(throws([&] { ev[i].s->scheduleRelativeTick(0, &sched); }), "scheduling into a group that has passed is rejected"); return; }
        OP("t=%llu schedule %d at +%llu", (unsigned long long)base, i, (unsigned long long)d);
        if (r.chance(50) && d < 1000) { d *= clk->getPeriod(); ev[i].s->schedule((Clock::Cycle)(d / clk->getPeriod())); } else ev[i].s->scheduleRelativeTick(d, &sched);
        pend[base + d].insert(i); if (ev[i].s->isContinuing()) lastc = std::max(lastc, base + d);
    };
    auto misc = [&](int cur) {
        int i = r.below(N); uint64_t base = sched.getCurrentTick();
        if (r.chance(10)) { if (cur == i) return; OP("t=%llu cancel %d", (unsigned long long)base, i); ev[i].s->cancel(); for (auto& p : pend) p.second.erase(i); return; }
        uint64_t at = pend.empty() || r.chance(30) ? base + r.below(5) : std::next(pend.begin(), r.below(pend.size()))->first;
        if (at < base) return;
        if (r.chance(20)) { if (cur == i) return; OP("t=%llu cancel %d at +%llu", (unsigned long long)base, i, (unsigned long long)(at - base)); sched.cancelEvent(ev[i].s, at - base); if (pend.count(at)) pend[at].erase(i); return; }
        if (cur < 0) {
            CHECKEQ(sched.isScheduled(ev[i].s, at - base), pend.count(at) && pend[at].count(i), "isScheduled at a time");
            bool any = false; for (auto& p : pend) any |= p.second.count(i) > 0;
            CHECKEQ(sched.isScheduled(ev[i].s), any, "isScheduled");
        } else if (at > base) CHECKEQ(sched.isScheduled(ev[i].s, at - base), pend.count(at) && pend[at].count(i), "isScheduled at a time");
    };
    body = [&](int i) {
        uint64_t t = sched.getCurrentTick();
        OP("  t=%llu event %d fires", (unsigned long long)t, i);
        CHECK(inRun, "event fires outside run");
        CHECK(t >= lastFired, "time went back"); CHECK(t >= started, "event before the run began");
        if (!odd) CHECKEQ(sched.getElapsedTicks(), t, "elapsed time while running"); CHECKEQ(clk->currentCycle(), t / clk->getPeriod(), "clock cycle while running"); if (!odd) CHECKEQ(clk->elapsedCycles(), t / clk->getPeriod(), "elapsed cycles while running");
        CHECK(sched.getCurrentSchedulingPhase() == ev[i].phase, "reported phase");
        auto p = pend.find(t); CHECK(p != pend.end() && p->second.count(i), "event fires at a time it was not scheduled for (or twice, or after cancelling)");
        p->second.erase(p->second.find(i)); ++fired;
        for (auto& q : pend) { if (q.first >= t) break; CHECK(q.second.empty(), "an event due earlier has not fired"); }
        if (t != firedInTick) { thisTick.clear(); firedInTick = t; }
        for (int j : thisTick) { CHECK(ev[j].phase <= ev[i].phase, "phase order"); CHECK(rank(j) <= rank(i), "group order"); }
        for (auto& q : prec) if (q.first == i) for (int j : thisTick) CHECK(j != q.second, "a declared predecessor fires after its successor");
        thisTick.push_back(i); lastFired = t; lastEv = i;
        if (budget) { --budget; for (int k = r.below(3); k > 0; --k) doSchedule(true, i); if (r.chance(25)) misc(i); }
        if (r.chance(1) && r.chance(40)) { OP("  stopRunning"); sched.stopRunning(); stopped = true; }
    };
    auto drop = [&] { for (auto it = pend.begin(); it != pend.end();) it = it->second.empty() ? pend.erase(it) : std::next(it); };
    for (int k = 0; k < (light ? 14 : 40); ++k) {
        uint64_t before = sched.getCurrentTick(); bool first = k == 0;
        switch (r.below(12)) {
        case 0: case 1: case 2: doSchedule(false, -1); continue;
        case 3: misc(-1); continue;
        case 4: if (r.chance(15)) { OP("clearEvents"); sched.clearEvents(); pend.clear(); lastc = 0; } continue;
        case 5: if (r.chance(15) && !first) { uint64_t t = r.below(1000); OP("restartAt %llu", (unsigned long long)t); sched.restartAt(t); odd = t != 0; firedInTick = ~0ull; pend.clear(); lastc = 0; lastFired = 0; CHECKEQ(sched.getCurrentTick(), t, "time after restart"); } continue;
        default: break;
        }
        uint64_t n = r.chance(70) ? r.range(1, 12) : r.chance(90) ? r.range(1, 200) : (1ull << r.below(36)) + 1; bool exact = r.chance(70), indef = r.chance(8); bool none = r.chance(4);
        if (indef) exact = false;
        budget = 25; stopped = false; inRun = true; started = before; drop();
        OP("t=%llu run %llu%s", (unsigned long long)before, indef ? ~0ull : (unsigned long long)n, exact ? " exactly" : "");
        if (none) { sched.run(0, exact, false); CHECKEQ(sched.getCurrentTick(), before, "run(0) advances nothing"); inRun = false; continue; }
        uint64_t el = sched.getElapsedTicks(); (void)el;
        if (indef) sched.run(Scheduler::INDEFINITE, false, false); else sched.run(n, exact, false);
        inRun = false; uint64_t t = sched.getCurrentTick(); drop();
        OP("t=%llu run returned", (unsigned long long)t);
        CHECK(t >= before, "time went back");
        for (auto& q : pend) CHECK(q.first >= t, "an event due in the run has not fired");
        if (!indef) CHECK(t <= before + n, "run went past its interval");
        if (exact && !stopped) CHECKEQ(t, before + n, "an exact run advances by exactly the requested time");
        if (t != before && !odd) CHECKEQ(sched.getElapsedTicks(), t - 1, "elapsed time after a run");
        // a run that is not exact ends early only when nothing that keeps the simulation alive is pending in its interval
        if (!exact && !stopped && t < before + n) for (auto& q : pend) if (q.first < before + n) for (int i : q.second) CHECK(!ev[i].s->isContinuing(), "run ended although a continuing event was due in its interval");
        if (indef && !stopped) for (auto& q : pend) for (int i : q.second) CHECK(!ev[i].s->isContinuing(), "run ended although a continuing event was pending");
    }
    CHECK(sched.getNumFired() - nfired >= fired, "number of events fired");
    rtn.enterTeardown();
}
void oracle(Rng& r, unsigned scale) { for (unsigned i = 0; i < 6000 * scale; ++i) run(r, i & 1); }

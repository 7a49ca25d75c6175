// PROPERTY: P05
// FULL
#include <exception>
#include <map>
#include <memory>
#include <deque>
#include <functional>
#include "oracle.h"
#include "sparta/ports/PortSet.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/kernel/Scheduler.hpp"
using namespace sparta;
typedef SchedulingPhase SP;
typedef unsigned long long ull;
struct In {
    int id; bool sig; uint64_t delay; SP phase;
    std::unique_ptr<DataInPort<uint64_t>> d; std::unique_ptr<SignalInPort> s;
    std::map<uint64_t, std::deque<uint64_t>> due; uint64_t got = 0;     // tick -> values
    std::function<void(In&, uint64_t)>* f;
    void data(const uint64_t& v) { (*f)(*this, v); }
    void signal() { (*f)(*this, 0); }
    DataContainer<uint64_t>& box() { return *d; }
};
struct Out { int id; bool sig; std::unique_ptr<DataOutPort<uint64_t>> d; std::unique_ptr<SignalOutPort> s; std::vector<int> to; };
struct Drv { std::unique_ptr<UniqueEvent<SP::Tick>> t; std::unique_ptr<UniqueEvent<SP::Update>> u; std::unique_ptr<UniqueEvent<SP::PostTick>> p; std::function<void()>* f; void fire() { (*f)(); } };
static void run(Rng& r) {
    const int NI = r.range(1, 6), NO = r.range(1, 4);
    Scheduler sched; ClockManager cm(&sched); RootTreeNode rtn; Clock::Handle root = cm.makeRoot(&rtn, "root_clk");
    Clock::Handle clk = cm.makeClock("c", root, r.range(1, 3), r.range(1, 3)), other = cm.makeClock("o", root, r.range(1, 3), 1); cm.normalize();
    rtn.setClock(clk.get());
    const uint64_t per = clk->getPeriod();
    CASE("%d in ports, %d out ports, period %llu", NI, NO, (ull)per);
    {
    PortSet ps(&rtn, "ports"); EventSet es(&rtn);
    std::function<void(In&, uint64_t)> recv; std::function<void()> drive;
    std::vector<In> in(NI); std::vector<Out> out(NO);
    static const SP phs[] = {SP::Tick, SP::PortUpdate, SP::Update, SP::Collection, SP::PostTick};
    for (int i = 0; i < NI; ++i) {
        In& p = in[i]; p.id = i; p.sig = r.chance(35); p.f = &recv; p.delay = r.chance(40) ? 0 : r.range(1, 4); if (r.chance(3)) p.delay = (1ull << 32) + r.below(3); if (r.chance(3)) p.delay = (1ull << 31) + r.below(5);
        bool dflt = r.chance(50); p.phase = dflt ? (p.delay ? SP::PortUpdate : SP::Tick) : phs[r.below(5)];
        std::string n = "in" + std::to_string(i);
        OP("in %d: %s delay %llu phase %d", i, p.sig ? "signal" : "data", (ull)p.delay, (int)p.phase);
        if (p.sig) { p.s.reset(dflt ? new SignalInPort(&ps, n, p.delay) : new SignalInPort(&ps, n, p.phase, p.delay)); p.s->registerConsumerHandler(SpartaHandler::from_member<In, &In::signal>(&p, "signal")); }
        else { p.d.reset(dflt ? new DataInPort<uint64_t>(&ps, n, p.delay) : new DataInPort<uint64_t>(&ps, n, p.phase, p.delay)); p.d->registerConsumerHandler(SpartaHandler::from_member_1<In, uint64_t, &In::data>(&p, "data")); }
    }
    for (int i = 0; i < NO; ++i) { Out& p = out[i]; p.id = i; p.sig = r.chance(35); std::string n = "out" + std::to_string(i);
        if (p.sig) p.s.reset(new SignalOutPort(&ps, n, r.chance(50))); else p.d.reset(new DataOutPort<uint64_t>(&ps, n, r.chance(50)));
        for (int j = 0; j < NI; ++j) if (in[j].sig == p.sig && r.chance(60)) { OP("bind out %d to in %d", i, j); p.to.push_back(j);
            Port* a = p.sig ? (Port*)p.s.get() : p.d.get(); Port* b = in[j].sig ? (Port*)in[j].s.get() : in[j].d.get();
            if (r.chance(30)) b->bind(a); else if (r.chance(50)) sparta::bind(a, b); else a->bind(b); }
        CHECKEQ((size_t)(p.sig ? p.s->getNumBoundPorts() : p.d->getNumBoundPorts()), p.to.size(), "bound ports");
    }
    Drv drv; drv.f = &drive; auto h = SpartaHandler::from_member<Drv, &Drv::fire>(&drv, "fire");
    drv.t.reset(new UniqueEvent<SP::Tick>(&es, "t", h)); drv.u.reset(new UniqueEvent<SP::Update>(&es, "u", h)); drv.p.reset(new UniqueEvent<SP::PostTick>(&es, "p", h));
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    uint64_t nextv = 1; int budget = 60, depth = 0; In* immediate = nullptr; uint64_t immv = 0;
    auto send = [&] {
        Out& o = out[r.below(NO)]; uint64_t d = r.chance(40) ? 0 : r.range(1, 5); if (r.chance(2)) d = (1ull << 32) + r.below(4); if (r.chance(1)) d = (1ull << 31) + 7;
        uint64_t now = sched.getCurrentTick(), v = nextv++; SP cur = sched.getCurrentSchedulingPhase();
        OP("time %llu phase %d: send %llu on out %d delay %llu", (ull)now, (int)cur, (ull)v, o.id, (ull)d);
        // the ports are served in binding order; one that must refuse (zero delay into an earlier phase) ends the send
        bool refuse = o.to.empty(); std::vector<In*> reached; for (int j : o.to) { if (d + in[j].delay == 0 && in[j].phase < cur) { refuse = true; break; } reached.push_back(&in[j]); }
        if (refuse && (!o.to.empty() || !r.chance(30))) return;      // only try the unbound ones
        if (!o.sig && !o.to.empty() && depth == 0 && r.chance(20)) CHECK(o.d->isDriven() == [&] { for (int j : o.to) if (!in[j].due.empty()) return true; return false; }(), "isDriven");
        if (!o.sig && !o.to.empty() && depth == 0 && r.chance(20)) { uint64_t k = r.range(1, 4); CHECK(o.d->isDriven(k) == [&] { for (int j : o.to) if (in[j].due.count(now + k * per)) return true; return false; }(), "isDriven in %llu cycles", (ull)k); }
        // expected
        std::vector<std::pair<In*, uint64_t>> exp;
        for (auto* p : reached) { uint64_t t = d + p->delay; bool imm = t == 0 && p->phase == cur; uint64_t at = now + t * per; auto& q = p->due[at];
            if (p->sig && !imm) { bool has = false; for (auto x : q) has |= x == 0; if (!has) q.push_back(0); } else q.push_back(imm ? v | (1ull << 63) : v); }
        bool thrown = false;
        try { if (o.sig) { if (d || r.chance(50)) o.s->send(d); else o.s->send(); } else if (d || r.chance(50)) o.d->send(v, d); else o.d->send(v); } catch (const SpartaException&) { thrown = true; }
        CHECK(thrown == refuse, "send %s", thrown ? "refused" : "on an unbound port accepted");
        for (auto* p : reached) { auto it = p->due.find(now); if (it != p->due.end()) for (auto x : it->second) CHECK(x != (v | (1ull << 63)), "in port %d did not get the datum in the sending phase", p->id); }
    };
    recv = [&](In& p, uint64_t v) {
        uint64_t now = sched.getCurrentTick();
        OP("time %llu: in %d receives %llu", (ull)now, p.id, (ull)v);
        CHECK(now % per == 0, "delivered off a receiver clock edge");
        auto it = p.due.find(now);
        CHECK(it != p.due.end() && !it->second.empty(), "in port %d received %llu at time %llu, when nothing is due", p.id, (ull)v, (ull)now);
        auto& q = it->second; SP cur = sched.getCurrentSchedulingPhase();
        CHECK(cur == p.phase, "delivered in phase %d instead of %d", (int)cur, (int)p.phase);
        size_t at = q.size(); for (size_t i = q.size(); i-- > 0;) if (q[i] >> 63 && (p.sig || (q[i] << 1 >> 1) == v)) { at = i; break; }
        if (at == q.size()) { for (size_t i = 0; i < q.size(); ++i) if (!(q[i] >> 63) && (p.sig || q[i] == v)) { at = i; break; }
            CHECK(at < q.size(), "in port %d received %llu, which is not due at time %llu", p.id, (ull)v, (ull)now); }
        q.erase(q.begin() + at); if (q.empty()) p.due.erase(it);
        ++p.got;
        if (!p.sig) { auto& b = p.box(); CHECK(b.dataReceived() && b.dataReceivedThisCycle(), "dataReceived"); CHECKEQ(b.peekData(), v, "peekData"); CHECKEQ((uint64_t)b.getReceivedTimeStamp(), now / per, "time stamp");
            if (r.chance(30)) { CHECKEQ(b.pullData(), v, "pullData"); CHECK(!b.dataReceived(), "pulled"); } }
        else CHECK(p.s->dataReceivedThisCycle(), "dataReceivedThisCycle");
        if (budget > 0 && depth < 3 && r.chance(30)) { --budget; ++depth; send(); --depth; }
    };
    drive = [&] { int n = r.range(1, 3); while (n-- > 0 && budget > 0) { --budget; send(); } };
    for (int step = 0; step < 12; ++step) {
        int w = r.below(3); uint64_t d = r.below(4);
        if (sched.getCurrentTick() % per == 0 || true) { uint64_t now = sched.getCurrentTick(); if (now % per == 0) { if (w == 0) drv.t->schedule(d, clk.get()); else if (w == 1) drv.u->schedule(d, clk.get()); else drv.p->schedule(d, clk.get()); } }
        sched.run(per * r.range(1, 4), true, false);
        uint64_t now = sched.getCurrentTick();
        for (auto& p : in) for (auto& q : p.due) CHECK(q.first >= now, "a value due at time %llu was not delivered to in port %d", (ull)q.first, p.id);
    }
    budget = 0;
    uint64_t last = sched.getCurrentTick(); for (auto& p : in) if (!p.due.empty()) last = std::max(last, p.due.rbegin()->first);
    sched.run(last + per - sched.getCurrentTick(), true, false);
    for (auto& p : in) CHECK(p.due.empty(), "a value was never delivered to in port %d", p.id);
    rtn.enterTeardown();
    }
}
void oracle(Rng& r, unsigned scale) { for (unsigned i = 0; i < 1500 * scale; ++i) run(r); }

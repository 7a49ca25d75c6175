// PROPERTY: P03
// FULL
#include <exception>
#include <map>
#include <memory>
#include <set>
#include <functional>
#include "oracle.h"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/kernel/Scheduler.hpp"
using namespace sparta;
typedef SchedulingPhase SP;
static int64_t live = 0;
struct D {
    uint64_t id, chk; D* self;
    explicit D(uint64_t i) : id(i), chk(~i * 3), self(this) { ++live; }
    D(const D& o) : id(o.id), chk(o.chk), self(this) { CHECK(o.self == &o, "payload copied from a dead object"); ++live; }
    ~D() { self = nullptr; --live; }
    bool operator==(const D& o) const { return id % 5 == o.id % 5; }
};
struct Ent { uint64_t id; int handles = 0; int64_t at = -1; bool cancelled = false, delivering = false; };
struct Pe { int id; PhasedPayloadEvent<D>* e; std::unique_ptr<TreeNode> node; std::function<void(int, const D&)>* f; std::map<uint64_t, Ent> in; void fire(const D& d) { (*f)(id, d); } };
struct Ue { int id; bool single; PhasedUniqueEvent* u = nullptr; PhasedSingleCycleUniqueEvent* s = nullptr; std::unique_ptr<TreeNode> node; std::function<void(int)>* f; std::set<uint64_t> pend; int64_t last = -1; void fire() { (*f)(id); } };
struct Held { ScheduleableHandle h; int pe; uint64_t id; };
template <SP P> static void makeP(Pe& e, EventSet* es) { auto* p = new PayloadEvent<D, P>(es, "pe" + std::to_string(e.id), SpartaHandler::from_member_1<Pe, D, &Pe::fire>(&e, "fire")); e.e = p; e.node.reset(p); }
template <SP P> static void makeU(Ue& e, EventSet* es) {
    auto h = SpartaHandler::from_member<Ue, &Ue::fire>(&e, "fire");
    if (e.single) { auto* p = new SingleCycleUniqueEvent<P>(es, "ue" + std::to_string(e.id), h); e.s = p; e.node.reset(p); }
    else { auto* p = new UniqueEvent<P>(es, "ue" + std::to_string(e.id), h); e.u = p; e.node.reset(p); }
}
static void run(Rng& r) {
    const int N = r.range(1, 3), U = r.range(1, 4);
    Scheduler sched; ClockManager cm(&sched); RootTreeNode rtn; Clock::Handle clk = cm.makeRoot(&rtn, "root_clk"); cm.normalize(); rtn.setClock(clk.get());
    CASE("%d payload events, %d unique events", N, U);
    {
    EventSet es(&rtn);
    std::function<void(int, const D&)> pbody; std::function<void(int)> ubody; std::vector<Pe> pe(N); std::vector<Ue> ue(U);
    for (int i = 0; i < N; ++i) { pe[i].id = i; pe[i].f = &pbody; if (r.chance(30)) makeP<SP::Update>(pe[i], &es); else if (r.chance(30)) makeP<SP::PortUpdate>(pe[i], &es); else makeP<SP::Tick>(pe[i], &es); }
    for (int i = 0; i < U; ++i) { ue[i].id = i; ue[i].f = &ubody; ue[i].single = r.chance(50); if (r.chance(30)) makeU<SP::Update>(ue[i], &es); else if (r.chance(30)) makeU<SP::Collection>(ue[i], &es); else makeU<SP::Tick>(ue[i], &es); OP("unique event %d %s", i, ue[i].single ? "single-cycle" : ""); }
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    auto usch = [&](int i) -> Scheduleable& { return ue[i].single ? ue[i].s->getScheduleable() : ue[i].u->getScheduleable(); };
    uint64_t nextId = 1, now = 0, budget = 0; std::vector<Held> held; uint64_t curRank = 0; bool firing = false;
    int selfP = -1; uint64_t selfId = 0;
    auto rank = [&](Scheduleable& s) -> uint64_t { return s.getGroupID() == 0 ? ~0ull : s.getGroupID(); };
    auto tidy = [&](int i) { for (auto it = pe[i].in.begin(); it != pe[i].in.end();) it = (it->second.at < 0 && !it->second.handles && !it->second.delivering) ? pe[i].in.erase(it) : std::next(it); };
    auto check = [&] {
        int64_t l = 0;
        for (int i = 0; i < N; ++i) { CHECKEQ((size_t)pe[i].e->getNumOutstandingEvents(), pe[i].in.size(), "number of outstanding payloads"); CHECK(pe[i].e->isScheduled() == !pe[i].in.empty(), "isScheduled"); l += pe[i].in.size(); }
        CHECKEQ(live, l, "payload objects alive");
    };
    auto cancelEnt = [&](Ent& x) { x.at = -1; if (x.handles || x.delivering) x.cancelled = true; };
    auto schedulable = [&](Scheduleable& s, uint64_t d) { return !(firing && d == 0 && rank(s) < curRank); };
    auto act = [&] {
        now = sched.getCurrentTick();
        int i = r.below(N); Pe& p = pe[i]; uint64_t d = r.chance(30) ? 0 : r.range(1, 5);
        switch (r.below(14)) {
        case 0: case 1: case 2: case 3: {
            if (!schedulable(p.e->getScheduleable(), d)) return;
            uint64_t id = nextId++; OP("t=%llu payload event %d: send %llu at +%llu", (unsigned long long)now, i, (unsigned long long)id, (unsigned long long)d);
            if (r.chance(50)) p.e->preparePayload(D(id))->schedule(Clock::Cycle(d)); else { ScheduleableHandle h = p.e->preparePayload(D(id)), g = h; g->schedule(Clock::Cycle(d)); }
            Ent& x = p.in[id]; x.id = id; x.at = now + d; return; }
        case 4: { if (held.size() > 8) return; uint64_t id = nextId++; OP("payload event %d: prepare %llu", i, (unsigned long long)id); held.push_back({p.e->preparePayload(D(id)), i, id}); Ent& x = p.in[id]; x.id = id; x.handles = 1; return; }
        case 5: { if (held.empty()) return; Held& h = held[r.below(held.size())]; Ent& x = pe[h.pe].in.at(h.id); if (!schedulable(pe[h.pe].e->getScheduleable(), d)) return;
            OP("schedule held %llu at +%llu", (unsigned long long)h.id, (unsigned long long)d);
            if (x.cancelled || x.at >= 0) { if (r.chance(10)) CHECK(throws([&] { h.h->schedule(Clock::Cycle(d)); }), "a cancelled or scheduled handle is not scheduled again"); return; }
            h.h->schedule(Clock::Cycle(d)); x.at = now + d; return; }
        case 6: { if (held.empty()) return; int k = r.below(held.size()); OP("drop handle of %llu", (unsigned long long)held[k].id); Ent& x = pe[held[k].pe].in.at(held[k].id); int q = held[k].pe; --x.handles;
            if (r.chance(50)) { Held tmp = held[k]; held.erase(held.begin() + k); } else held.erase(held.begin() + k);
            tidy(q); return; }
        case 7: { if (held.empty() || held.size() > 8) return; Held c = held[r.below(held.size())]; OP("copy handle of %llu", (unsigned long long)c.id); held.push_back(c); ++pe[c.pe].in.at(c.id).handles; if (r.chance(50)) { Held m = std::move(held.back()); held.pop_back(); held.push_back(std::move(m)); } return; }
        case 8: {
            bool plain = true; for (auto& x : p.in) plain &= !x.second.cancelled && !x.second.delivering; uint64_t n = p.in.size();
            int w = r.below(4);
            if (w == 0) { OP("t=%llu payload event %d: cancel all", (unsigned long long)now, i); uint64_t c = p.e->cancel(); if (plain) CHECKEQ(c, n, "number cancelled"); for (auto& x : p.in) cancelEnt(x.second); }
            else if (w == 1) {
                OP("t=%llu payload event %d: cancel at +%llu", (unsigned long long)now, i, (unsigned long long)d); uint64_t c = p.e->cancel(Clock::Cycle(d)), m = 0;
                for (auto& x : p.in) if (x.second.at == (int64_t)(now + d)) { cancelEnt(x.second); ++m; }
                if (plain) CHECKEQ(c, m, "number cancelled at a time");
            } else { uint64_t k = r.below(5), m = 0; OP("t=%llu payload event %d: cancel if %llu", (unsigned long long)now, i, (unsigned long long)k); D crit(k);
                uint64_t c = w == 2 ? p.e->cancelIf(crit) : p.e->cancelIf([&](const D& o) { return o.id % 5 == k; });
                for (auto& x : p.in) if (x.second.id % 5 == k) { cancelEnt(x.second); ++m; }
                CHECKEQ(c, m, "number cancelled by criteria"); }
            tidy(i); return; }
        case 9: { uint64_t k = r.below(5); bool any = false; uint64_t m = 0; for (auto& x : p.in) if (x.second.id % 5 == k) { any = true; ++m; } D crit(k);
            CHECK(p.e->confirmIf(crit) == any, "confirmIf"); CHECK(bool(p.e->confirmIf([&](const D& o) { return o.id % 5 == k; })) == any, "confirmIf"); CHECKEQ(p.e->getHandleIf(crit).size(), m, "getHandleIf");
            if (d || !firing) { bool at = false; for (auto& x : p.in) at |= x.second.at == (int64_t)(now + d); CHECK(p.e->isScheduled(Clock::Cycle(d)) == at, "isScheduled at a time"); }
            return; }
        default: {
            int j = r.below(U); Ue& u = ue[j]; if (u.single) d = r.below(2);
            if (r.chance(15)) { OP("t=%llu unique event %d: cancel", (unsigned long long)now, j); if (u.single) u.s->cancel(); else if (r.chance(60)) u.u->cancel(); else { OP("   at +%llu", (unsigned long long)d); u.u->cancel(Clock::Cycle(d)); u.pend.erase(now + d); return; } u.pend.clear(); return; }
            bool passed = !schedulable(usch(j), d);
            if (u.last == (int64_t)(now + d)) { // it has run in this instant already
                if (u.single) { OP("t=%llu unique event %d: schedule again", (unsigned long long)now, j); u.s->schedule(Clock::Cycle(d)); }
                else if (r.chance(10)) CHECK(throws([&] { u.u->schedule(Clock::Cycle(d)); }), "a unique event that has run in this instant is not scheduled again");
                return; }
            if (passed) return;
            OP("t=%llu unique event %d: schedule at +%llu", (unsigned long long)now, j, (unsigned long long)d);
            if (u.single) u.s->schedule(Clock::Cycle(d)); else u.u->schedule(Clock::Cycle(d));
            u.pend.insert(now + d); return; }
        }
    };
    pbody = [&](int i, const D& d) {
        now = sched.getCurrentTick(); uint64_t id = d.id; firing = true; curRank = rank(pe[i].e->getScheduleable());
        OP("  t=%llu payload event %d delivers %llu", (unsigned long long)now, i, (unsigned long long)id);
        CHECK(d.self == &d && d.chk == ~id * 3, "payload damaged");
        auto it = pe[i].in.find(id); CHECK(it != pe[i].in.end(), "payload delivered twice, or after cancelling");
        CHECKEQ(it->second.at, (int64_t)now, "payload delivered at its time"); it->second.at = -1; it->second.delivering = true;
        if (budget) { --budget; for (int k = r.below(4); k > 0; --k) act(); }
        CHECK(d.self == &d && d.id == id, "payload gone while it is delivered"); pe[i].in.at(id).delivering = false; tidy(i);
        firing = false;
    };
    ubody = [&](int j) {
        now = sched.getCurrentTick(); firing = true; curRank = rank(usch(j)); OP("  t=%llu unique event %d", (unsigned long long)now, j);
        CHECK(ue[j].pend.count(now), "unique event runs when not scheduled"); CHECK(ue[j].last != (int64_t)now, "unique event runs twice in one instant"); ue[j].pend.erase(now); ue[j].last = now;
        if (budget) { --budget; for (int k = r.below(4); k > 0; --k) act(); }
        firing = false;
    };
    for (int k = 0; k < 30; ++k) {
        for (int q = r.below(5); q > 0; --q) act();
        check();
        if (r.chance(50)) {
            budget = 12; uint64_t n = r.range(1, 6); OP("run %llu", (unsigned long long)n); sched.run(n, true, false); now = sched.getCurrentTick();
            for (auto& p : pe) for (auto& x : p.in) CHECK(x.second.at < 0 || x.second.at >= (int64_t)now, "a payload was not delivered at its time");
            for (auto& u : ue) for (auto t : u.pend) CHECK(t >= now, "a unique event did not run at a time it was scheduled for");
            check();
        }
    }
    budget = 0; sched.run(20, true, false);
    for (auto& p : pe) for (auto& x : p.in) CHECK(x.second.at < 0, "a payload was never delivered");
    held.clear(); for (int i = 0; i < N; ++i) { for (auto& x : pe[i].in) x.second.handles = 0; tidy(i); } check();
    rtn.enterTeardown();
    }
    CHECKEQ(live, 0, "payloads alive after the event is gone");
}
void oracle(Rng& r, unsigned scale) { for (unsigned i = 0; i < 5000 * scale; ++i) run(r); }

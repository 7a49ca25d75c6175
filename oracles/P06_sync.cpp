// PROPERTY: P06
// FULL
#include <exception>
#include <deque>
#include <memory>
#include <functional>
#include "oracle.h"
#include "sparta/ports/PortSet.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/kernel/Scheduler.hpp"
using namespace sparta;
typedef SchedulingPhase SP;
typedef unsigned long long ull;
struct Rx { std::function<void(uint64_t)> f; void get(const uint64_t& v) { f(v); } };
struct Tx { std::function<void()> f; void fire() { f(); } };
static void run(Rng& r) {
    Scheduler sched; ClockManager cm(&sched); RootTreeNode rtn; Clock::Handle root = cm.makeRoot(&rtn, "root_clk");
    Clock::Handle sc = cm.makeClock("s", root, r.range(1, 7), r.range(1, 7)), rc = r.chance(20) ? sc : cm.makeClock("r", root, r.range(1, 7), r.range(1, 7)); cm.normalize();
    rtn.setClock(root.get());
    TreeNode sn(&rtn, "snode", "s"), rn(&rtn, "rnode", "r"); sn.setClock(sc.get()); rn.setClock(rc.get());
    const uint64_t sp = sc->getPeriod(), rp = rc->getPeriod();
    {
    PortSet sps(&sn, "ports"), rps(&rn, "ports"); EventSet es(&sn), er(&rn);
    SyncOutPort<uint64_t> out(&sps, "sync_out", sc.get()); SyncInPort<uint64_t> in(&rps, "sync_in", rc.get(), r.chance(60) ? SP::PortUpdate : SP::Tick);
    uint64_t rd = r.range(1, 4), rdt = rd * rp; bool frac = r.chance(20);
    if (frac) { uint64_t q = r.range(1, 4 * rp); rdt = q; in.setPortDelay(double(q) / double(rp)); rdt = uint64_t(double(q) / double(rp) * double(rp)); CHECKEQ((uint64_t)in.getPortDelay(), (rdt + rp - 1) / rp, "port delay in cycles"); }
    else { in.setPortDelay(Clock::Cycle(rd)); CHECKEQ((uint64_t)in.getPortDelay(), rd, "port delay"); }
    CASE("sender period %llu, receiver period %llu, receive delay %llu", (ull)sp, (ull)rp, (ull)rdt);
    Rx rx; Tx tx; in.registerConsumerHandler(SpartaHandler::from_member_1<Rx, uint64_t, &Rx::get>(&rx, "get"));
    if (r.chance(50)) out.bind(in); else in.bind(out);
    UniqueEvent<SP::Tick> ev(&es, "ev", SpartaHandler::from_member<Tx, &Tx::fire>(&tx, "fire"));
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    struct M { uint64_t at, v, min; }; std::deque<M> q; uint64_t prev = ~0ull, v = 1, lastCycle = ~0ull, got = 0; int n = 0;
    bool stall = sc == rc && !frac && rd == 1 && r.chance(60); uint64_t setAt = ~0ull; bool ready = true; (void)ready; (void)setAt;
    const int N = r.range(5, 40); uint64_t budget = N;
    rx.f = [&](uint64_t x) {
        uint64_t now = sched.getCurrentTick(); OP("time %llu: received %llu", (ull)now, (ull)x);
        CHECK(now % rp == 0, "received off a receiver clock edge");
        CHECK(!q.empty(), "received a datum never sent or received twice");
        CHECKEQ(x, q.front().v, "received out of order or altered");
        CHECK(now >= q.front().min, "received early");
        CHECKEQ(now, q.front().at, "time of arrival"); CHECK(in.dataReceivedThisCycle(), "dataReceivedThisCycle"); CHECKEQ(in.peekData(), x, "peekData");
        q.pop_front(); ++got; ++n;
    };
    tx.f = [&] {
        uint64_t now = sched.getCurrentTick(), cyc = sc->currentCycle();
        CHECK(now % sp == 0, "sender edge");
        uint64_t d = r.chance(50) ? 0 : r.range(1, 4); bool slide = r.chance(50);
        uint64_t min = now + d * sp + rdt, raw = (min + rp - 1) / rp * rp, at = raw; bool taken = prev != ~0ull && raw <= prev;
        if (taken) at = prev + rp;
        // first sender cycle from which a datum would arrive at `at`
        uint64_t nx = out.computeNextAvailableCycleForSend(d, 0);
        uint64_t latest = (at - rdt - d * sp) / sp;     // at is on a receiver edge
        CHECKEQ(nx, latest + d, "next available cycle for a send");
        CHECK(out.isDriven(d) == taken, "isDriven");
        if (lastCycle == ~0ull || nx > lastCycle) {
            OP("time %llu: send %llu delay %llu%s", (ull)now, (ull)v, (ull)d, slide ? " may slide" : "");
            bool thrown = false; uint64_t ret = 0;
            try { if (slide) ret = d || r.chance(50) ? out.sendAndAllowSlide(v, d) : out.sendAndAllowSlide(v); else ret = d || r.chance(50) ? out.send(v, d) : out.send(v); } catch (const SpartaException&) { thrown = true; }
            CHECK(thrown == (taken && !slide), "a send into a receiver cycle that is taken is refused, any other accepted");
            if (!thrown) { CHECKEQ(now + ret, at, "announced arrival"); q.push_back({at, v, min}); prev = at; lastCycle = nx; }
            ++v;
        }
        if (--budget) ev.schedule(r.chance(70) ? 1 : r.range(1, 6), sc.get());
    };
    ev.schedule(r.below(3), sc.get());
    sched.run(sp * 300 + rp * 100, true, false);
    CHECK(q.empty(), "a datum never arrived");
    rtn.enterTeardown();
    }
}
void oracle(Rng& r, unsigned scale) { for (unsigned i = 0; i < 1200 * scale; ++i) run(r); }

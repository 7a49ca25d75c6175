// PROPERTY: P04
// FULL
#include <exception>
#include "oracle.h"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/kernel/Scheduler.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/Event.hpp"
using namespace sparta;
typedef unsigned __int128 U;
static U gcdU(U a, U b) { while (b) { U t = a % b; a = b; b = t; } return a; }
struct Rat { U n = 1, d = 1; void mul(U a, U b) { n *= a; d *= b; U g = gcdU(n, d); n /= g; d /= g; } };
static void run(Rng& r) {
    Scheduler sched; ClockManager cm(&sched); RootTreeNode rtn;
    Clock::Handle root = cm.makeRoot(&rtn, "root_clk");
    const int N = r.range(1, 5);
    bool freq = r.chance(25);
    CASE("%d clocks%s", N, freq ? " by frequency" : "");
    std::vector<Clock::Handle> cl{root}; std::vector<Rat> rat{Rat()}; std::vector<double> mhz{0};
    for (int i = 0; i < N; ++i) {
        int p = freq ? 0 : r.below(cl.size());
        if (freq) { static const double fs[] = {1000, 2000, 500, 250, 333.333, 1500, 800, 100, 66.6, 4000, 10000}; double f = fs[r.below(11)];
            cl.push_back(cm.makeClock("c" + std::to_string(i), root, f)); mhz.push_back(f); rat.push_back(Rat()); OP("clock %d: %g MHz", i, f); continue; }
        uint32_t a = r.range(1, 12), b = r.chance(40) ? 1 : r.range(1, 12);
        if (r.chance(20)) a = 1;
        OP("clock %d: parent %d ratio %u/%u", i, p - 1, a, b);
        cl.push_back(cm.makeClock("c" + std::to_string(i), cl[p], a, b));
        Rat x = rat[p]; x.mul(b, a); rat.push_back(x); mhz.push_back(0);
    }
    uint32_t norm = cm.normalize();
    CHECK(norm >= 1, "norm");
    for (size_t i = 0; i < cl.size(); ++i) {
        if (freq) { if (i) CHECKEQ((uint64_t)cl[i]->getPeriod(), (uint64_t)((1.0 / mhz[i]) * 1000. * 1000.), "period of a clock given by frequency"); continue; }
        CHECK(U(cl[i]->getPeriod()) * rat[i].d == rat[i].n * norm, "period of clock %d is %u, want %llu/%llu of the root's %u", int(i) - 1, cl[i]->getPeriod(), (unsigned long long)rat[i].n, (unsigned long long)rat[i].d, norm);
    }
    rtn.setClock(root.get()); rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    sched.run(1, true);     // time zero
    for (int step = 0; step < 60; ++step) {
        uint64_t now = sched.getCurrentTick();
        OP("time %llu", (unsigned long long)now);
        for (size_t i = 0; i < cl.size(); ++i) {
            Clock& c = *cl[i]; uint64_t p = c.getPeriod();
            if (p == 0) continue;
            CHECKEQ((uint64_t)c.currentCycle(), now / p, "current cycle of clock %d", int(i) - 1);
            CHECK(c.isPosedge() == (now % p == 0), "edge of clock %d", int(i) - 1);
            uint64_t k = r.chance(50) ? r.range(0, 1000) : r.next() % (~0ull / p);
            CHECKEQ((uint64_t)c.getTick(Clock::Cycle(k)), k * p, "time of cycle %llu", (unsigned long long)k);
            CHECKEQ((uint64_t)c.getCycle(c.getTick(Clock::Cycle(k))), k, "cycle to time and back");
            uint64_t t = r.chance(50) ? k * p + r.below(p) : r.next();
            CHECKEQ((uint64_t)c.getCycle(t), t / p, "cycle of time %llu", (unsigned long long)t);
            if (k) CHECKEQ((uint64_t)c.getAbsoluteTick(k), (k - 1) * p, "start of cycle %llu", (unsigned long long)k);
            c.updateElapsedCycles(t); CHECKEQ((uint64_t)c.elapsedCycles(), t / p, "elapsed cycles");
            CHECKEQ((uint64_t)c.getTick(double(k % 100000)), (k % 100000) * p, "time of a whole number of cycles");
            for (size_t j = 0; j < cl.size(); ++j) {
                Clock& d = *cl[j]; uint64_t q = d.getPeriod();
                if (q == 0) continue;
                uint64_t sd = c.getTick(Clock::Cycle(r.below(4))), dd = d.getTick(Clock::Cycle(r.below(4)));
                if (r.chance(10)) { sd = r.next() >> 3; dd = r.next() >> 3; }
                bool thrown = false; uint64_t del = 0;
                if (now % p == 0 || r.chance(2)) {
                    try { del = calculateClockCrossingDelay(sd, &c, dd, &d); } catch (const SpartaException&) { thrown = true; }
                    CHECK(thrown == (now % p != 0), "crossing from an edge accepted, from off an edge refused (clock %d to %d)", int(i) - 1, int(j) - 1);
                    if (!thrown) { CHECK(del >= sd + dd, "crossing is early"); CHECK((now + del) % q == 0, "crossing lands off an edge"); CHECK(del - (sd + dd) < q, "crossing skips an edge (clock %d to %d, delays %llu %llu, got %llu)", int(i) - 1, int(j) - 1, (unsigned long long)sd, (unsigned long long)dd, (unsigned long long)del); }
                }
                uint64_t at = r.range(0, 200) * q + (r.chance(2) && q > 1 ? 1 : 0);
                sd = p * r.below(3); dd = q * r.below(3);
                if (sd + dd > at) continue;
                thrown = false;
                try { del = calculateReverseClockCrossingDelay(at, sd, &c, dd, &d); } catch (const SpartaException&) { thrown = true; }
                CHECK(thrown == (at % q != 0), "reverse crossing to an edge accepted");
                if (!thrown) { CHECK(del >= sd + dd && del <= at && (at - del) % p == 0 && del - (sd + dd) < p, "reverse crossing (clock %d to %d, arrival %llu, delays %llu %llu): %llu", int(i) - 1, int(j) - 1, (unsigned long long)at, (unsigned long long)sd, (unsigned long long)dd, (unsigned long long)del); }
            }
        }
        sched.run(r.chance(70) ? r.range(1, 6) : r.range(1, 5000), true, false);
    }
    rtn.enterTeardown();
}
void oracle(Rng& r, unsigned scale) { for (unsigned i = 0; i < 120 * scale; ++i) run(r); }

// PROPERTY: P13
// FULL
#include <exception>
#include <memory>
#include <optional>
#include "oracle.h"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/resources/SharedData.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/kernel/Scheduler.hpp"
struct World {
    sparta::Scheduler sched; sparta::ClockManager cm{&sched}; sparta::RootTreeNode rtn; sparta::Clock::Handle clk;
    World() { clk = cm.makeRoot(&rtn, "root_clk"); cm.normalize(); rtn.setClock(clk.get()); }
    void start() { rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); }
};
using V = std::optional<uint64_t>;
template <class T> static T mk(uint64_t x);
template <> uint64_t mk<uint64_t>(uint64_t x) { return x; }
template <> std::string mk<std::string>(uint64_t x) { return "value-of-some-length-" + std::to_string(x); }
template <class T, bool manual> static void run(Rng& r) {
    World w;
    uint64_t init = r.below(100);
    CASE("SharedData %s init=%llu", manual ? "manual" : "auto", (unsigned long long)init);
    sparta::SharedData<T, manual> d("d", w.clk.get(), mk<T>(init));
    const auto& cd = d;
    V ps = init, ns;
    bool pending = false;
    auto check = [&] {
        CHECKEQ(d.isValid(), ps.has_value(), "present validity");
        CHECKEQ(d.isValidNS(), ns.has_value(), "next validity");
        if (ps) { CHECK(cd.read() == mk<T>(*ps), "present value"); CHECK(d.access() == mk<T>(*ps), "present value"); } else if (r.chance(1)) CHECK(throws([&] { (void)cd.read(); }), "reading an invalid present value is rejected");
        if (ns) { CHECK(cd.readNS() == mk<T>(*ns), "next value"); CHECK(d.accessNS() == mk<T>(*ns), "next value"); } else if (r.chance(1)) CHECK(throws([&] { (void)cd.readNS(); }), "reading an invalid next value is rejected");
    };
    auto ops = [&] {
        for (unsigned q = r.below(4); q; --q) {
            uint64_t x = r.below(1000);
            switch (r.below(10)) {
            case 0: case 1: case 2: case 3: OP("write %llu", (unsigned long long)x); if (r.chance(50)) d.write(mk<T>(x)); else { const T t = mk<T>(x); d.write(t); } ns = x; pending = true; break;
            case 4: OP("writePS %llu", (unsigned long long)x); if (r.chance(50)) d.writePS(mk<T>(x)); else { const T t = mk<T>(x); d.writePS(t); } ps = x; break;
            case 5: if (ns) { OP("accessNS %llu", (unsigned long long)x); d.accessNS() = mk<T>(x); ns = x; } break;
            case 6: if (r.chance(30)) { OP("clear"); d.clear(); ps.reset(); ns.reset(); } break;
            case 7: if (r.chance(30)) { OP("clearNS"); d.clearNS(); ns.reset(); } break;
            case 8: if (r.chance(30)) { OP("clearPS"); d.clearPS(); ps.reset(); } break;
            }
            check();
        }
    };
    if constexpr (manual) {
        for (unsigned t = 0; t < 60; ++t) { ops(); OP("update"); d.update(); ps = ns; ns.reset(); check(); }
    } else {
        sparta::EventSet es(&w.rtn);
        std::function<void()> body;
        struct D { std::function<void()>* f; void go() { (*f)(); } } dr{&body};
        sparta::UniqueEvent<sparta::SchedulingPhase::Tick> ev(&es, "driver", sparta::SpartaHandler::from_member<D, &D::go>(&dr, "go"), 1);
        unsigned t = 0;
        body = [&] {
            unsigned step = r.chance(80) ? 1 : r.range(2, 4);
            OP("cycle %llu", (unsigned long long)w.clk->currentCycle());
            if (pending) { ps = ns; ns.reset(); pending = false; }     // the update of this cycle ran before this phase
            check(); ops();
            if (++t < 60) ev.schedule(step);
        };
        w.start();
        ev.schedule(1);
        w.sched.run(1000, true);
        CHECKEQ(t, 60, "driver ran");
    }
    w.rtn.enterTeardown();
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned c = 0; c < 300 * scale; ++c) { run<uint64_t, false>(r); run<uint64_t, true>(r); run<std::string, false>(r); run<std::string, true>(r); }
}

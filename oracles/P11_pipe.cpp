// PROPERTY: P11
// FULL
#include <exception>
#include <memory>
#include <deque>
#include <optional>
#include "oracle.h"
#include "sparta/resources/Pipe.hpp"
#include "sparta/resources/Pipeline.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/kernel/Scheduler.hpp"
struct World {
    sparta::Scheduler sched; sparta::ClockManager cm{&sched}; sparta::RootTreeNode rtn; sparta::Clock::Handle clk;
    World() { clk = cm.makeRoot(&rtn, "root_clk"); cm.normalize(); rtn.setClock(clk.get()); }
    void start() { rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); }
};
using Cell = std::optional<uint64_t>;
template <class T> static T mk(uint64_t x);
template <> uint64_t mk<uint64_t>(uint64_t x) { return x; }
template <> std::string mk<std::string>(uint64_t x) { return "value-of-some-length-" + std::to_string(x); }

template <class T> static void pipeCase(Rng& r, bool own) {
    unsigned n = r.chance(30) ? r.range(1, 2) : r.range(1, 19);
    CASE("Pipe stages=%u own-updates=%d", n, own);
    World w;
    sparta::Pipe<T> p("p", n, w.clk.get());
    if (own) p.performOwnUpdates();
    std::vector<Cell> m(n);
    Cell app;
    auto check = [&](bool deep) {
        unsigned c = 0;
        for (unsigned i = 0; i < n; ++i) {
            CHECKEQ(p.isValid(i), m[i].has_value(), "isValid of a stage");
            if (m[i]) { ++c; CHECK(p.read(i) == mk<T>(*m[i]), "datum of a stage"); CHECK(p.access(i) == mk<T>(*m[i]), "access"); }
        }
        CHECKEQ(p.numValid(), c, "occupancy");
        CHECKEQ(p.size(), c, "size");
        CHECKEQ(p.empty(), c == 0, "empty");
        CHECKEQ(p.isLastValid(), m[n - 1].has_value(), "isLastValid");
        CHECKEQ(p.isAppended(), app.has_value(), "isAppended");
        CHECKEQ(p.isAnyValid(), c || app, "isAnyValid");
        if (app) CHECK(p.readAppendedData() == mk<T>(*app), "readAppendedData");
        unsigned k = 0;
        for (auto it = p.begin(); it != p.end(); ++it, ++k) { CHECK(k < n, "iteration ends"); CHECKEQ(it.isValid(), m[k].has_value(), "iterator validity"); if (m[k]) CHECK(*it == mk<T>(*m[k]), "iterator value"); }
        CHECKEQ(k, n, "stages visited");
        if (deep) for (unsigned i = 0; i < n; ++i) if (!m[i]) { CHECK(throws([&] { (void)p.read(i); }), "reading an empty stage is rejected"); break; }
    };
    uint64_t next = 1;
    bool dirty = false;   // in own-updates mode an update is pending
    auto step = [&] {
        if (!own || dirty) { for (unsigned i = n - 1; i > 0; --i) m[i] = m[i - 1]; m[0] = app; app.reset(); }
    };
    auto ops = [&] {
        for (unsigned q = r.below(4); q; --q) {
            unsigned s = r.below(n);
            switch (r.below(12)) {
            case 0: case 1: case 2: case 3: if (!app) { uint64_t x = r.chance(70) ? next++ : r.below(3); OP("append %llu", (unsigned long long)x); if (r.chance(50)) p.append(mk<T>(x)); else { T t = mk<T>(x); p.append(t); } app = x; dirty = true; } else if (r.chance(5)) { OP("append onto appended"); CHECK(throws([&] { p.append(mk<T>(1)); }), "second append is rejected"); } break;
            case 4: { uint64_t x = r.chance(70) ? next++ : r.below(3); OP("write stage %u %llu", s, (unsigned long long)x); p.writePS(s, mk<T>(x)); m[s] = x; dirty = true; break; }
            case 5: if (m[s]) { OP("invalidate %u", s); p.invalidatePS(s); m[s].reset(); dirty = true; } else if (r.chance(5)) { OP("invalidate empty %u", s); CHECK(throws([&] { p.invalidatePS(s); }), "invalidating an empty stage is rejected"); } break;
            case 6: if (m[n - 1]) { OP("invalidateLast"); p.invalidateLastPS(); m[n - 1].reset(); dirty = true; } break;
            case 7: OP("flush %u", s); p.flushPS(s); m[s].reset(); break;
            case 8: if (r.chance(30)) { OP("flushAppend"); p.flushAppend(); app.reset(); } break;
            case 9: if (r.chance(10)) { OP("flushAll"); p.flushAll(); app.reset(); for (auto& c : m) c.reset(); } break;
            case 10: { uint64_t x = r.below(3); OP("flushIf %llu", (unsigned long long)x); T v = mk<T>(x); if (r.chance(50)) p.flushIf(v); else p.flushIf(std::function<bool(const T&)>([&](const T& o) { return o == v; })); for (auto& c : m) if (c == x) c.reset(); if (app == x) app.reset(); break; }
            case 11: { OP("shiftAppend"); bool e = app && !m[0]; CHECKEQ(p.shiftAppend(), e, "shiftAppend accepts exactly when the first stage is free"); if (e) { m[0] = app; app.reset(); dirty = true; } break; }
            }
            check(r.chance(1));
        }
    };
    if (!own) {
        for (unsigned t = 0; t < 60; ++t) { ops(); OP("update"); p.update(); step(); check(false); }
        return;
    }
    sparta::EventSet es(&w.rtn);
    unsigned t = 0;
    std::function<void()> body;
    struct D { std::function<void()>* f; void go() { (*f)(); } } d{&body};
    sparta::UniqueEvent<sparta::SchedulingPhase::PostTick> ev(&es, "driver", sparta::SpartaHandler::from_member<D, &D::go>(&d, "go"), 1);
    body = [&] {
        if (t) { OP("cycle %u", t); bool any = dirty; step(); (void)any; dirty = false; for (auto& c : m) if (c) dirty = true; check(false); }
        ops();
        if (++t < 60) ev.schedule();
    };
    w.start();
    ev.schedule(sparta::Clock::Cycle(0));
    w.sched.run(200, true, false);
    CHECKEQ(t, 60, "cycles driven");
    w.rtn.enterTeardown();
}

template <class EventT> static void pipelineCase(Rng& r) {
    unsigned n = r.range(1, 7);
    bool own = r.chance(70), pay = std::is_same<EventT, sparta::PhasedPayloadEvent<uint64_t>>::value;
    CASE("Pipeline stages=%u own-updates=%d payload-events=%d", n, own, pay);
    World w;
    sparta::EventSet pes(nullptr);
    sparta::Pipeline<uint64_t, EventT> p("pl", n, w.clk.get());
    if (own) p.performOwnUpdates();
    std::vector<Cell> m(n);
    Cell app;
    std::vector<std::vector<uint64_t>> fired(n);
    std::vector<unsigned> order;
    std::vector<uint64_t> handlers(n, 0);
    struct H { std::vector<std::vector<uint64_t>>* f; std::vector<unsigned>* o; unsigned s; void u() { (*f)[s].push_back(0); o->push_back(s); } void d(const uint64_t& x) { (*f)[s].push_back(x); o->push_back(s); } };
    std::deque<H> hs;
    for (unsigned s = 0; s < n; ++s) {
        handlers[s] = r.below(3);
        for (unsigned k = 0; k < handlers[s]; ++k) {
            hs.push_back(H{&fired, &order, s});
            if constexpr (std::is_same<EventT, sparta::PhasedPayloadEvent<uint64_t>>::value) p.registerHandlerAtStage(s, sparta::SpartaHandler::from_member_1<H, uint64_t, &H::d>(&hs.back(), "d"));
            else p.registerHandlerAtStage(s, sparta::SpartaHandler::from_member<H, &H::u>(&hs.back(), "u"));
        }
    }
    int prec = r.below(3);
    if (prec) p.setDefaultStagePrecedence(prec == 1 ? sparta::Pipeline<uint64_t, EventT>::Precedence::FORWARD : sparta::Pipeline<uint64_t, EventT>::Precedence::BACKWARD);
    // model of the stall
    uint32_t left = 0, at = 0; bool stalled = false;
    std::vector<bool> hold(n, false), quiet(n, false);
    auto unstall = [&] { stalled = false; left = 0; hold.assign(n, false); quiet.assign(n, false); };
    std::vector<uint64_t> expect(n, 0);
    auto update = [&] {
        if (!stalled) { for (unsigned i = n - 1; i > 0; --i) m[i] = m[i - 1]; m[0] = app; app.reset(); }
        else {
            // everything beyond the stalled stage drains; held stages stay; below a crushed bubble data close up
            if (at + 1 < n) { m[n - 1].reset(); for (unsigned i = n - 1; i > at + 1; --i) { m[i] = m[i - 1]; m[i - 1].reset(); } }
            for (unsigned i = std::min(at + 1, n - 1); i > 0; --i) if (!hold[i - 1] && !m[i]) { m[i] = m[i - 1]; m[i - 1].reset(); }
            if (!m[0] && app) { m[0] = app; app.reset(); }
        }
        for (unsigned i = 0; i < n; ++i) expect[i] = m[i] && handlers[i] && !quiet[i];
        if (stalled && --left == 0) unstall();
    };
    auto check = [&] {
        unsigned c = 0;
        for (unsigned i = 0; i < n; ++i) {
            CHECKEQ(p.isValid(i), m[i].has_value(), "Pipeline stage validity");
            if (m[i]) { ++c; CHECKEQ(p[i], *m[i], "Pipeline stage datum"); CHECKEQ(p.at(i), *m[i], "Pipeline stage datum"); }
            CHECKEQ(p.isStalledOrStallingAtStage(i), stalled && i <= at, "stalled stages");
        }
        CHECKEQ(p.numValid(), c, "Pipeline occupancy");
        CHECKEQ(p.isAppended(), app.has_value(), "Pipeline appended");
        CHECKEQ(p.isStalledOrStalling(), stalled, "Pipeline stalled");
    };
    sparta::EventSet es(&w.rtn);
    unsigned t = 0;
    std::function<void()> body, upd;
    struct D { std::function<void()>* f; void go() { (*f)(); } } d{&body}, du{&upd};
    sparta::UniqueEvent<sparta::SchedulingPhase::PostTick> ev(&es, "driver", sparta::SpartaHandler::from_member<D, &D::go>(&d, "go"), 1);
    sparta::UniqueEvent<sparta::SchedulingPhase::Update> uev(&es, "manual", sparta::SpartaHandler::from_member<D, &D::go>(&du, "go"), 1);
    upd = [&] { p.update(); };
    uint64_t next = 100; bool pending = false;
    body = [&] {
        bool any = app.has_value(); for (auto& c : m) any |= c.has_value();
        expect.assign(n, 0);
        if (t && (!own || pending)) { OP("cycle %u", t); update(); }
        check();
        for (unsigned i = 0; i < n; ++i) {
            CHECKEQ(fired[i].size(), expect[i] * handlers[i], "stage handlers run once per cycle for a valid stage");
            if (pay) for (uint64_t x : fired[i]) CHECKEQ(x, *m[i], "stage handler datum");
            fired[i].clear();
        }
        if (prec) for (size_t i = 1; i < order.size(); ++i) CHECK(prec == 1 ? order[i - 1] <= order[i] : order[i - 1] >= order[i], "stage handlers run in the configured stage order");
        order.clear();
        pending = app.has_value(); for (auto& c : m) pending |= c.has_value();
        for (unsigned q = r.below(4); q; --q) {
            unsigned s = r.below(n);
            switch (r.below(9)) {
            case 0: case 1: case 2: case 3: if (!app) { uint64_t x = next++; OP("append %llu", (unsigned long long)x); p.append(x); app = x; pending = true; } break;
            case 4: { uint64_t x = next++; OP("write %u %llu", s, (unsigned long long)x); p.writeStage(s, x); m[s] = x; pending = true; break; }
            case 5: if (m[s] && !(stalled && s == at)) { OP("invalidate %u", s); p.invalidateStage(s); m[s].reset(); pending = true; } break;
            case 6: OP("flush %u", s); p.flushStage(s); m[s].reset(); if (stalled && s == at) unstall(); break;
            case 7: if (!stalled && m[s]) { uint32_t k = r.below(5); bool crush = r.chance(50), sup = r.chance(70); OP("stall %u for %u crush=%d suppress=%d", s, k, crush, sup); p.stall(s, k, crush, sup);
                    if (k) { stalled = true; left = k; at = s; for (int i = s; i >= 0; --i) { if (crush && !m[i]) break; hold[i] = true; if (sup) quiet[i] = true; } } } break;
            case 8: if (stalled && r.chance(30)) { OP("clearStall"); p.clearStall(); unstall(); } else if (r.chance(10)) { OP("flushAppend"); p.flushAppend(); app.reset(); } break;
            }
            check();
        }
        if (++t < 60) { ev.schedule(); if (!own) uev.schedule(); }
    };
    w.start();
    ev.schedule(sparta::Clock::Cycle(0));
    w.sched.run(200, true, false);
    CHECKEQ(t, 60, "cycles driven");
    w.rtn.enterTeardown();
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned k = 0; k < 150 * scale; ++k) {
        pipeCase<uint64_t>(r, false);
        pipeCase<std::string>(r, r.chance(50));
        pipeCase<uint64_t>(r, true);
        pipelineCase<sparta::PhasedUniqueEvent>(r);
        pipelineCase<sparta::PhasedPayloadEvent<uint64_t>>(r);
    }
}

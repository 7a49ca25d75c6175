// PROPERTY: P01
// ASSUME: no logging, call trace or notification observer is attached to the scheduler
// ASSUME: Scheduler::determineTickQuantum_ is used through its contract (sched_list.cpp: quantum.*): the quantum of the requested time
// REPLACE: sparta::log::MessageSource::operator bool() const => st_off
// REPLACE: sparta::Scheduler::determineTickQuantum_(unsigned long) => st_quantum
// REPLACE: sparta::NotificationSource<unsigned long>::observed() const => st_off
// REPLACE: sparta::NotificationSourceBase::observed => st_off
// REPLACE: sparta::Scheduler::throwPrecedenceIssue_ => st_prec
// OPAQUE: sparta::color
// OPAQUE: sparta::log::MessageSource
// OPAQUE: sparta::log::LogObject
#include "verif.h"
#include "src/Scheduler.cpp"
using namespace sparta;
using TQ = Scheduler::TickQuantum;
using SG = TQ::ScheduleableGroup;
struct G { TQ* q; SG* groups; uint64_t ng, k; Scheduleable** ev; uint64_t cap, n, g; Scheduleable** other; uint64_t calls, rel; Scheduleable* dom; };
static G g_;
struct Precedence {};
extern "C" bool st_off(void*) { return false; }
extern "C" TQ* st_quantum(Scheduler*, uint64_t rel) { g_.calls = g_.calls + 1; g_.rel = rel; return g_.q; }
extern "C" void st_prec(const Scheduler*, const Scheduleable*, uint32_t) { throw Precedence(); }
static void* f_beg(uint64_t i, void*) { return i == g_.k ? (void*)g_.ev : (void*)g_.other; }
static void* f_end(uint64_t i, void*) { return i == g_.k ? (void*)(g_.ev + g_.cap) : (void*)(g_.other + 16); }
static uint64_t f_cnt(uint64_t i, void*) { return i == g_.k ? g_.n : v_uf("other size", i); }
static uint64_t f_cap(uint64_t i, void*) { return i == g_.k ? g_.cap : 16; }
static Scheduleable* at(uint64_t i) { return g_.dom + v_uf("event", i); }
static void* f_ev(uint64_t i, void*) { v_assume(v_uf("event", i) < (1u << 30)); return at(i); }
// a quantum with any number of groups; group k holds any events
static void quantum(uint64_t ng, uint64_t k, bool full = false) {
    g_.ng = ng; g_.k = k; v_assume(k < ng && ng < (1u << 30));
    g_.q = v_obj<TQ>("quantum");
    g_.cap = 16; g_.n = v_u64("size"); v_assume(full ? g_.n == g_.cap : g_.n < g_.cap);
    if (!full) { g_.cap = v_u64("capacity"); v_assume(g_.cap >= 16 && g_.cap < (1u << 30) && g_.n < g_.cap); }
    g_.g = v_u64("g"); v_assume(g_.g < g_.n || g_.n == 0);
    g_.dom = (Scheduleable*)v_array("events", 1u << 30, sizeof(Scheduleable));
    g_.ev = full ? new Scheduleable*[16] : (Scheduleable**)v_array("group k", g_.cap, 8); g_.other = (Scheduleable**)v_array("other group", 16, 8);
    if (full) for (int i = 0; i < 16; ++i) g_.ev[i] = at(i); else v_elem_ptr(g_.ev, 0, f_ev, nullptr);
    g_.groups = (SG*)v_array("groups", ng, sizeof(SG));
    const uint64_t V = offsetof(SG, scheduleables_);
    v_elem_ptr(g_.groups, V, f_beg, nullptr); v_elem_ptr(g_.groups, V + 8, f_end, nullptr); v_elem_ptr(g_.groups, V + 16, f_end, nullptr);
    v_elem_int(g_.groups, offsetof(SG, current_idx_), 8, f_cnt, nullptr); v_elem_int(g_.groups, offsetof(SG, size_), 8, f_cap, nullptr);
    auto& v = g_.q->groups._M_impl; v._M_start = g_.groups; v._M_finish = v._M_end_of_storage = g_.groups + ng;
}
static Scheduler* sched() {
    Scheduler* s = v_obj<Scheduler>("scheduler");
    s->dag_finalized_ = true; g_.calls = 0;
    return s;
}
static bool notSeen(void* e, uint64_t i) { return (g_.g >= i) | (g_.n == 0) | (at(g_.g) != (Scheduleable*)e); }
extern "C" void vh_schedule() {
    Scheduler* s = sched();
    uint64_t ng = v_u32("firing groups"), rel = v_u64("rel"); uint32_t dag = v_u32("dag group");
    v_assume(ng >= 3 && s->group_zero_ == ng - 1 && s->firing_group_count_ == ng && dag < ng - 2);
    uint64_t k = dag ? dag + 1 : ng - 1;
    quantum(ng, k);
    uint64_t now = s->current_tick_, lc = s->latest_continuing_event_; v_assume(now + rel >= now);
    bool fin = s->is_finished_; uint32_t cur = s->current_group_firing_, f0 = g_.q->first_group_idx;
    bool cont = v_bool("continuing"), uniq = v_bool("unique");
    Scheduleable* e = g_.dom + v_u32("event"); v_assume((uint64_t)(e - g_.dom) < (1u << 30));
    v_inv(notSeen, e, 1);
    bool refused = false;
    try { s->scheduleEvent(e, rel, dag, cont, uniq); } catch (const Precedence&) { refused = true; }
    v_assert(refused == (rel == 0 && k < cur), "schedule.refused-exactly-when-the-group-has-passed");
    const SG& G = g_.groups[k];
    if (refused) { v_cover("refused"); v_assert(G.current_idx_ == g_.n && g_.calls == 0 && s->is_finished_ == fin && s->latest_continuing_event_ == lc, "schedule.refusal-changes-nothing"); return; }
    v_assert(g_.calls == 1 && g_.rel == rel, "schedule.in-the-quantum-of-the-time");
    if (G.current_idx_ == g_.n + 1) {
        v_cover("added");
        v_assert(G.scheduleables_[g_.n] == e, "schedule.behind-the-events-of-its-group");
        v_assert(!uniq || g_.n == 0 || at(g_.g) != e, "schedule.unique-event-only-once-per-time");
        v_assert(g_.q->first_group_idx <= k && g_.q->first_group_idx <= f0 && (g_.q->first_group_idx == f0 || g_.q->first_group_idx == k), "schedule.first-group-covers-it");
    } else { v_cover("already there"); v_assert(G.current_idx_ == g_.n && uniq, "schedule.not-dropped"); }
    if (g_.n) v_assert(G.scheduleables_[g_.g] == at(g_.g), "schedule.other-events-unchanged");
    uint64_t h = v_u64("other group"); v_assume(h < ng && h != k);
    v_assert(g_.groups[h].current_idx_ == v_uf("other size", h), "schedule.other-groups-unchanged");
    v_assert(s->latest_continuing_event_ == (cont && now + rel > lc ? now + rel : lc) && s->is_finished_ == (cont ? false : fin), "schedule.continuing-horizon");
    v_assert(s->current_tick_ == now, "schedule.time-unchanged");
}
// a unique event that is already there is found: the group is not extended
static bool stillThere(void* e, uint64_t i) { return (i <= g_.g); }
extern "C" void vh_schedule_unique_present() {
    Scheduler* s = sched();
    uint64_t ng = v_u32("firing groups"), k = v_u32("k"); v_assume(k > 0);
    quantum(ng, k);
    v_assume(g_.n > 0);
    Scheduleable* e = at(g_.g); v_assume(v_uf("event", g_.g) < (1u << 30));
    v_inv(stillThere, e, 1);
    g_.q->addEventIfNotScheduled(k, e);
    v_assert(g_.groups[k].current_idx_ == g_.n, "schedule.unique-event-only-once-per-time");
}
extern "C" void vh_group_grow() {
    uint64_t ng = v_u32("firing groups"), k = v_u32("k"); v_assume(k > 0);
    SG* g = new SG;
    v_assert(g->size() == 0 && g->size_ == 16 && g->scheduleables_.size() == 16, "group.starts-empty");
    Scheduleable* d = (Scheduleable*)v_array("events", 1u << 30, sizeof(Scheduleable));
    uint32_t a = v_u32("a"); v_assume(a < (1u << 29));
    for (uint32_t i = 0; i < 70; ++i) {
        g->addScheduleable(d + (a + i * 3));
        v_assert(g->size() == i + 1, "group.grows-by-one");
    }
    for (uint32_t i = 0; i < 70; ++i) v_assert((*g)[i] == d + (a + i * 3), "group.keeps-every-event-in-order");
    g->clear();
    v_assert(g->size() == 0 && g->size_ == g->scheduleables_.size(), "group.cleared");
    delete g;
}

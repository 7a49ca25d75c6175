// PROPERTY: P11
// ASSUME: fewer than 2^30 stages; pipeline collection not attached; PhasedUniqueEvent::schedule is replaced by a recorder (its own contract is property P03)
// ASSUME: Pipe::getPhysicalStage_ is used through its contract (an injective map of stages to slots), proved in pipe.cpp (slot-map.*)
// REPLACE: ::getPhysicalStage_ => st_phys
// REPLACE: sparta::Scheduleable::schedule() => st_sched
#include "verif.h"
#include <cstddef>
#include "sparta/resources/Pipe.hpp"
using P = sparta::Pipe<uint64_t>;
using PE = P::PipeEntry;
struct G { PE* a; uint32_t n, mask, tail, num0; uint64_t sched, j, crit; P* p; };
static G g_;
extern "C" { void st_sched(void*) { ++g_.sched; } }
static bool valid0(uint64_t phys) { return v_uf("valid", phys) & 1; }
static uint64_t f_valid(uint64_t i, void*) { return valid0(i) ? 1 : 0; }
// slot of stage s (s = -1 is the append slot)
static uint32_t ph(int64_t s) { return (uint32_t)v_uf("slot", (uint64_t)s); }
extern "C" { uint32_t st_phys(const void*, int32_t s) { uint32_t r = ph(s); v_assume(r <= g_.mask); return r; } }
static bool distinct(int64_t i, int64_t j) { return (i == j) | (i < -1) | (j < -1) | (i >= (int64_t)g_.n) | (j >= (int64_t)g_.n) | (ph(i) != ph(j)); }
static bool V0(int64_t s) { return valid0(ph(s)); }
static P* any(bool own) {
    P* p = v_obj<P>("p");
    uint32_t n = v_u32("stages"), mask = v_u32("mask"), tail = v_u32("tail"), nv = v_u32("num_valid");
    v_assume(n >= 1 && n < (1u << 30) && mask >= n && mask < (1u << 31) && (mask & (mask + 1)) == 0 && tail <= mask && nv <= n);
    p->num_entries_ = n; p->physical_size_ = mask + 1; p->stage_mask_ = mask; p->tail_ = tail; p->num_valid_ = nv;
    PE* a = static_cast<PE*>(v_array("entries", uint64_t(mask) + 1, sizeof(PE)));
    v_elem_int(a, 0, 1, f_valid, nullptr);
    g_.a = a; g_.n = n; g_.mask = mask; g_.tail = tail; g_.num0 = nv; g_.p = p; g_.sched = 0;
    new (&p->pipe_) std::unique_ptr<PE[]>(a);
    new (&p->collector_) decltype(p->collector_)();
    p->perform_own_updates_ = own;
    return p;
}
static PE& slot(P* p, int64_t s) { uint32_t k = ph(s); v_assume(k <= g_.mask); return p->pipe_[k]; }
static bool isV(P* p, int64_t s) { return slot(p, s).data.valid_; }
static uint64_t val(P* p, int64_t s) { return slot(p, s).data.value_; }
static int64_t stage(const char* nm, P* p) { int64_t s = (int32_t)v_u32(nm); v_assume(s >= -1 && s < (int64_t)p->num_entries_); return s; }

static bool allInv(void*, uint64_t v) {       // stages before the loop variable are empty, the others untouched
    int64_t j = (int64_t)g_.j, i = (int32_t)v;
    v_assume(distinct(i - 1, j));
    return (i >= -1) & (i <= (int64_t)g_.n) & (isV(g_.p, j) == ((j >= i) & V0(j)));
}
extern "C" void vh_pipe_flush_all() {
    P* p = any(false);
    int64_t s = stage("s", p);
    g_.j = s;
    v_assume(isV(p, s) == V0(s));
    v_inv(allInv, nullptr, 1);
    p->flushAll();
    v_cover("flushed");
    v_assert(!isV(p, s), "flushAll.every-stage-empty");
    v_assert(p->numValid() == 0 && p->empty(), "flushAll.occupancy");
}
// number of valid matching stages below i (specification function)
static uint64_t V0val(int64_t s) { return v_uf("value", ph(s)); }
static bool hit(int64_t s) { return V0(s) & (V0val(s) == g_.crit); }
static uint64_t cnt(int64_t i) { return v_uf("matches_below", (uint64_t)i); }
static void axCnt(int64_t i) { v_assume((cnt(0) == 0) & ((i < 0) | (cnt(i + 1) == cnt(i) + hit(i)))); }
static uint64_t f_val(uint64_t i, void*) { return v_uf("value", i); }
// stages already passed lost exactly the matching data, the others are untouched
static bool ifInv(void*, uint64_t v, uint64_t jj) {
    int64_t j = (int64_t)jj, i = (int64_t)v;
    v_assume(distinct(i, j)); v_assume(distinct(i - 1, j));
    return (i >= -1) & (i <= (int64_t)g_.n) & (isV(g_.p, j) == (V0(j) & ((j >= i) | !hit(j))));
}
static bool cntInv(void*, uint64_t v) {
    int64_t i = (int32_t)v;
    axCnt(i); axCnt(i - 1);
    return (i >= -1) & (i <= (int64_t)g_.n) & (g_.p->num_valid_ == (uint32_t)(g_.num0 - (i <= 0 ? 0 : cnt(i))));
}
static void flushIf(bool fn) {
    P* p = any(false);
    v_elem_int(g_.a, offsetof(PE, data.value_), 8, f_val, nullptr);
    int64_t s = stage("s", p);
    uint64_t crit = v_u64("criteria");
    g_.j = s; g_.crit = crit;
    v_invq(ifInv, nullptr, -1, g_.n, s, s);
    v_inv(cntInv, nullptr, 1);
    axCnt(-1);
    if (fn) p->flushIf(std::function<bool(const uint64_t&)>([](const uint64_t& d) { return d == g_.crit; }));
    else p->flushIf(crit);
    v_cover("flushed");
    v_assert(isV(p, s) == (V0(s) && V0val(s) != crit), "flushIf.exactly-the-matching-data-leave");
    v_assert(!isV(p, s) || val(p, s) == V0val(s), "flushIf.values-unchanged");
    v_assert(p->numValid() == (uint32_t)(g_.num0 - cnt(g_.n)), "flushIf.occupancy-drops-by-the-matching-stages");
}
extern "C" void vh_pipe_flush_if() { flushIf(false); }
extern "C" void vh_pipe_flush_if_fn() { flushIf(true); }

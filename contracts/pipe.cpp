// PROPERTY: P11
// ASSUME: fewer than 2^30 stages; pipeline collection not attached; PhasedUniqueEvent::schedule is replaced by a recorder (its own contract is property P03)
// REPLACE: sparta::Scheduleable::schedule() => st_sched
#include "verif.h"
#include <cstddef>
#include "sparta/resources/Pipe.hpp"
using P = sparta::Pipe<uint64_t>;
using PE = P::PipeEntry;
struct G { PE* a; uint32_t n, mask, tail, num0; uint64_t sched, j, crit; P* p; };
static G g_;
extern "C" { void st_sched(void*) { ++g_.sched; } }
static bool valid0(uint64_t phys) { return v_uf("valid", phys) & 1; }
static uint64_t f_valid(uint64_t i, void*) { return valid0(i) ? 1 : 0; }
// slot of stage s (s = -1 is the append slot)
static uint32_t ph(int64_t s) { return (g_.tail + (uint32_t)s) & g_.mask; }
static bool V0(int64_t s) { return valid0(ph(s)); }
static P* any(bool own) {
    P* p = v_obj<P>("p");
    uint32_t n = v_u32("stages"), mask = v_u32("mask"), tail = v_u32("tail"), nv = v_u32("num_valid");
    v_assume(n >= 1 && n < (1u << 30) && mask >= n && mask < (1u << 31) && (mask & (mask + 1)) == 0 && tail <= mask && nv <= n);
    p->num_entries_ = n; p->physical_size_ = mask + 1; p->stage_mask_ = mask; p->tail_ = tail; p->num_valid_ = nv;
    PE* a = static_cast<PE*>(v_array("entries", uint64_t(mask) + 1, sizeof(PE)));
    v_elem_int(a, 0, 1, f_valid, nullptr);
    g_.a = a; g_.n = n; g_.mask = mask; g_.tail = tail; g_.num0 = nv; g_.p = p; g_.sched = 0;
    new (&p->pipe_) std::unique_ptr<PE[]>(a);
    new (&p->collector_) decltype(p->collector_)();
    p->perform_own_updates_ = own;
    return p;
}
static PE& slot(P* p, int64_t s) { return p->pipe_[(p->tail_ + (uint32_t)s) & g_.mask]; }
static bool isV(P* p, int64_t s) { return slot(p, s).data.valid_; }
static uint64_t val(P* p, int64_t s) { return slot(p, s).data.value_; }
static int64_t stage(const char* nm, P* p) { int64_t s = (int32_t)v_u32(nm); v_assume(s >= -1 && s < (int64_t)p->num_entries_); return s; }

extern "C" void vh_pipe_update() {
    bool own = v_bool("own");
    P* p = any(own);
    int64_t s = stage("s", p);
    v_assume(s >= 0);
    bool before = isV(p, s - 1), last = isV(p, (int64_t)g_.n - 1), app = isV(p, -1);
    uint64_t d = val(p, s - 1);
    // slots outside stages -1..n-1 are never valid
    if (g_.mask > g_.n) v_assume(!isV(p, -2));
    if (own) p->internalUpdate_(); else p->update();
    v_cover("updated");
    v_assert(isV(p, s) == before && (!before || val(p, s) == d), "update.every-datum-advances-one-stage");
    v_assert(p->isValid(s) == before, "update.isValid");
    if (before) v_assert(p->read(s) == d && p->access(s) == d, "update.read");
    v_assert(p->numValid() == g_.num0 - (last ? 1 : 0) + (app ? 1 : 0), "update.occupancy-counts-valid-stages");
    v_assert(p->num_entries_ == g_.n && p->stage_mask_ == g_.mask && p->tail_ <= g_.mask, "update.invariant");
    v_assert(g_.sched == ((own && p->numValid() > 0) ? 1 : 0), "update.reschedules-itself-while-occupied");
}
extern "C" void vh_pipe_update_append_slot() {
    P* p = any(false);
    v_assume(g_.mask > g_.n ? !isV(p, -2) : true);
    p->update();
    v_assert(!isV(p, -1) && !p->isAppended(), "update.append-slot-becomes-free");
}
extern "C" void vh_pipe_append() {
    bool own = v_bool("own");
    P* p = any(own);
    int64_t s = stage("s", p);
    v_assume(s >= 0);
    uint64_t x = v_u64("x"), d = val(p, s);
    bool was = isV(p, s), app = isV(p, -1), threw = false, mv = v_bool("move");
    try { if (mv) p->append(std::move(x)); else p->append(x); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == app, "append.rejected-exactly-when-already-appended");
    v_assert(isV(p, s) == was && val(p, s) == d && p->numValid() == g_.num0, "append.no-stage-changes-before-update");
    v_assert(threw || (p->isAppended() && p->readAppendedData() == x), "append.datum-waits-in-front");
    v_assert(g_.sched == (own && !threw ? 1 : 0), "append.schedules-own-update");
    if (threw) v_cover("rejected"); else v_cover("appended");
}
extern "C" void vh_pipe_write() {
    bool own = v_bool("own");
    P* p = any(own);
    int64_t s = stage("s", p), w = stage("w", p);
    v_assume(w >= 0 && s != w);
    uint64_t x = v_u64("x"), d = val(p, s);
    bool was = isV(p, s), ww = isV(p, w);
    v_assume(!ww || g_.num0 >= 1);
    p->writePS(w, x);
    v_assert(p->isValid(w) && p->read(w) == x, "write.stage-holds-the-datum");
    v_assert(isV(p, s) == was && val(p, s) == d, "write.other-stages-unchanged");
    v_assert(p->numValid() == g_.num0 + (ww ? 0 : 1), "write.occupancy");
    v_assert(g_.sched == (own ? 1 : 0), "write.schedules-own-update");
}
extern "C" void vh_pipe_invalidate() {
    P* p = any(false);
    int64_t s = stage("s", p), w = stage("w", p);
    v_assume(w >= 0 && s != w);
    uint64_t d = val(p, s);
    bool was = isV(p, s), ww = isV(p, w), threw = false;
    uint8_t how = v_u8("how");
    v_assume(how < 3 && (how != 1 || w == (int64_t)g_.n - 1));
    try { if (how == 0) p->invalidatePS(w); else if (how == 1) p->invalidateLastPS(); else p->flushPS(w); } catch (const sparta::SpartaException&) { threw = true; }
    v_assert(threw == (!ww && how != 2), "invalidate.rejected-exactly-when-stage-empty");
    v_assert(!isV(p, w) && p->isValid(w) == false, "invalidate.stage-becomes-empty");
    v_assert(isV(p, s) == was && val(p, s) == d, "invalidate.other-stages-unchanged");
    v_assert(p->numValid() == g_.num0 - (ww ? 1 : 0), "invalidate.occupancy");
}
extern "C" void vh_pipe_flush_append() {
    P* p = any(false);
    int64_t s = stage("s", p);
    v_assume(s >= 0);
    uint64_t d = val(p, s); bool was = isV(p, s);
    p->flushAppend();
    v_assert(!p->isAppended() && isV(p, s) == was && val(p, s) == d && p->numValid() == g_.num0, "flushAppend.only-appended-data");
}
// contract of the stage-to-slot map, used by the flush obligations (pipe_flush.cpp)
static bool distinct(int64_t i, int64_t j) { return (i == j) | (i < -1) | (j < -1) | (i >= (int64_t)g_.n) | (j >= (int64_t)g_.n) | (ph(i) != ph(j)); }
extern "C" void vh_pipe_slot_map() {
    P* p = any(false);
    int64_t i = (int32_t)v_u32("i"), j = (int32_t)v_u32("j");
    v_assume(i >= -1 && i < (int64_t)g_.n);
    v_assert(distinct(i, j), "slot-map.stages-have-distinct-slots");
    v_assert(p->getPhysicalStage_((int32_t)i) == ph(i), "slot-map.implementation");
    v_assert(ph(i) < p->physical_size_, "slot-map.in-range");
}
extern "C" void vh_pipe_shift_append() {
    P* p = any(false);
    int64_t s = stage("s", p);
    v_assume(s > 0);
    uint64_t d = val(p, s), x = val(p, -1), z = val(p, 0); bool was = isV(p, s), app = isV(p, -1), v0 = isV(p, 0);
    bool r = p->shiftAppend();
    v_assert(r == (app && !v0), "shiftAppend.exactly-when-first-stage-is-free");
    v_assert(isV(p, s) == was && val(p, s) == d, "shiftAppend.other-stages-unchanged");
    v_assert(isV(p, 0) == (v0 || app) && isV(p, -1) == (app && v0) && p->numValid() == g_.num0 + (r ? 1 : 0), "shiftAppend.occupancy");
    if (r) { v_cover("shifted"); v_assert(p->read(0) == x, "shiftAppend.datum-moves"); } else v_assert(val(p, 0) == z && val(p, -1) == x, "shiftAppend.refused-changes-nothing");
}
extern "C" void vh_pipe_queries() {
    P* p = any(false);
    uint32_t i = v_u32("stage");
    v_assume(i <= g_.n);
    bool t = false, t2 = false; uint64_t r = 0;
    try { r = p->read(i); } catch (const sparta::SpartaException&) { t = true; }
    try { (void)p->isValid(i); } catch (const sparta::SpartaException&) { t2 = true; }
    v_assert(t == (i >= g_.n || !isV(p, i)) && (t || r == val(p, i)), "read.rejected-exactly-when-stage-empty-or-absent");
    v_assert(t2 == (i >= g_.n), "isValid.rejected-exactly-beyond-the-last-stage");
    v_assert(p->isLastValid() == isV(p, (int64_t)g_.n - 1) && p->capacity() == g_.n && p->size() == g_.num0, "queries");
    v_assert(p->isAnyValid() == (g_.num0 > 0 || isV(p, -1)), "isAnyValid");
    if (i < g_.n) {
        P::iterator it(p, i); P::const_iterator ci(p, i);
        v_assert(it.isValid() == isV(p, i), "iterator.validity");
        if (isV(p, i)) v_assert(*it == val(p, i) && *ci == val(p, i), "iterator.value");
        auto k = it; ++k;
        v_assert((k == p->end()) == (i + 1 == g_.n) && (it == p->begin()) == (i == 0), "iterator.visits-every-stage");
    }
}

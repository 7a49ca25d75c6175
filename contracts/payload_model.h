// abstract pre-state of a PhasedPayloadEvent (P03)
#pragma once
#include "verif.h"
#include <cstddef>
#include "sparta/events/PhasedPayloadEvent.hpp"
#include "src/Scheduleable.cpp"
using namespace sparta;
using E = PhasedPayloadEvent<uint64_t>;
using P = E::PayloadDeliveringProxy;
using L = E::ProxyInflightList;
#include "fastlist_model.h"
// proxies 0..na-1 exist; 0..nu-1 were used: each is in flight (at a node of the list) or on the free list
struct H { E* e; P* p; uint64_t na, nu, nf, g; P** freel; std::unique_ptr<P>* alloc; uint64_t sched, rel, handled, value, cancelled; const Scheduleable* who; bool throws; P* d; uint8_t mode; uint32_t h0; Scheduler* s; bool liveInHandler, schedInHandler; uint64_t cnt; };
static H h_;
static uint64_t pv(uint64_t node) { return v_uf("proxy at node", node); }
static uint64_t nodeOf(uint64_t q) { return v_uf("node of proxy", q); }
static uint64_t fr(uint64_t j) { return v_uf("free proxy", j); }
static uint64_t slotOf(uint64_t q) { return v_uf("free slot of proxy", q); }
static bool inFlight(uint64_t q) { return v_uf("in flight", q) & 1; }
// value of the list node k
static void axNode(uint64_t k) { v_assume((pos(k) >= g_.n) | ((pv(k) < h_.nu) & (nodeOf(pv(k)) == k) & inFlight(pv(k)))); }
static void* f_pv(uint64_t k, void*) { axNode(k); return h_.p + pv(k); }
static void axProxy(uint64_t q) {
    if (q < h_.nu) v_assume(inFlight(q) ? (nodeOf(q) < g_.cap) & (pos(nodeOf(q)) < g_.n) & (pv(nodeOf(q)) == q) : (slotOf(q) < h_.nf) & (fr(slotOf(q)) == q));
}
static uint64_t f_node(uint64_t q, void*) { return (q < h_.nu) & inFlight(q) ? nodeOf(q) : 0xffffffffu; }
static void* f_flist(uint64_t, void*) { return &h_.e->inflight_pl_; }
static void* f_parent(uint64_t, void*) { return h_.e; }
static void* f_payload(uint64_t q, void*) { return (char*)(h_.p + q) + offsetof(P, payload_storage_); }
static uint64_t val(uint64_t q) { return v_uf("payload", q); }
static uint64_t f_val2(uint64_t q, void*) { return val(q); }
static bool busy(uint64_t q) { return (q < h_.nu) & inFlight(q); }
static uint64_t f_sched(uint64_t q, void*) { return busy(q) & (v_uf("scheduled", q) & 1); }
static uint64_t f_canc(uint64_t q, void*) { return busy(q) & (v_uf("cancelled", q) & 1); }
static uint64_t f_deliv(uint64_t q, void*) { return 0; }
static uint64_t f_count(uint64_t q, void*) { return busy(q) ? (uint32_t)v_uf("handles", q) : 0; }
static void* f_free(uint64_t j, void*) { v_assume((j >= h_.nf) | ((fr(j) < h_.nu) & !inFlight(fr(j)) & (slotOf(fr(j)) == j))); return h_.p + fr(j); }
static void* f_alloc(uint64_t i, void*) { return h_.p + i; }
static void* f_sched_ptr(uint64_t, void*) { return h_.s; }
static void*** vt_;
static void* f_vt(uint64_t, void*) { return vt_; }
static E* any() {
    E* e = h_.e = v_obj<E>("event");
    h_.s = v_obj<Scheduler>("scheduler");
    anyAt(&e->inflight_pl_);
    h_.na = v_u32("allocated"); h_.nu = v_u32("used"); h_.nf = v_u32("free");
    v_assume(h_.na < (1u << 30) && h_.nu <= h_.na && h_.nf <= h_.nu && h_.nu == h_.nf + g_.n && h_.nu < g_.cap);
    h_.p = (P*)v_array("proxies", h_.na, sizeof(P));
    h_.freel = (P**)v_array("free list", h_.na, 8); h_.alloc = (std::unique_ptr<P>*)v_array("allocated", h_.na, 8);
    v_elem_ptr(g_.nodes, offsetof(N, type_storage), f_pv, nullptr);
    v_elem_ptr(h_.freel, 0, f_free, nullptr); v_elem_ptr(h_.alloc, 0, f_alloc, nullptr);
    v_elem_int(h_.p, offsetof(P, loc_.node_idx_), 4, f_node, nullptr); v_elem_ptr(h_.p, offsetof(P, loc_.flist_), f_flist, nullptr);
    v_elem_ptr(h_.p, offsetof(P, parent_), f_parent, nullptr); v_elem_ptr(h_.p, offsetof(P, payload_), f_payload, nullptr);
    v_elem_int(h_.p, offsetof(P, payload_storage_), 8, f_val2, nullptr);
    v_elem_int(h_.p, offsetof(P, scheduled_), 1, f_sched, nullptr); v_elem_int(h_.p, offsetof(P, cancelled_), 1, f_canc, nullptr); v_elem_int(h_.p, offsetof(P, delivering_), 1, f_deliv, nullptr);
    v_elem_int(h_.p, offsetof(P, scheduleable_handle_count_), 4, f_count, nullptr);
    v_elem_ptr(h_.p, offsetof(P, scheduler_.scheduler_), f_sched_ptr, nullptr);
    { Scheduleable* t = new Scheduleable(SpartaHandler("x"), 0, SchedulingPhase::Tick); P* p = new P(*t, e); vt_ = *(void****)(void*)p; }
    v_elem_ptr(h_.p, 0, f_vt, nullptr);
    auto& a = *(std::_Vector_base<std::unique_ptr<P>, std::allocator<std::unique_ptr<P>>>*)&e->allocated_proxies_; a._M_impl._M_start = h_.alloc; a._M_impl._M_finish = a._M_impl._M_end_of_storage = h_.alloc + h_.na;
    auto& f = *(std::_Vector_base<P*, std::allocator<P*>>*)&e->free_pl_; f._M_impl._M_start = h_.freel; f._M_impl._M_finish = f._M_impl._M_end_of_storage = h_.freel + h_.na;
    e->free_idx_ = h_.nf; e->allocation_idx_ = h_.nu;
    h_.sched = h_.handled = h_.cancelled = h_.cnt = 0; h_.throws = false; h_.g = v_u32("watched proxy"); v_assume(h_.g < h_.nu); axProxy(h_.g);
    return e;
}

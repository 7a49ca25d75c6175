// PROPERTY: P05
// ASSUME: the delivery to one in port is used through its contract (ports.cpp: send.*, payload_cancel.cpp for cancel); fewer than 2^30 bound ports
// REPLACE: sparta::DataInPort<unsigned long>::send_ => st_send
// REPLACE: sparta::SignalInPort::send_ => st_send0
// REPLACE: sparta::DataInPort<unsigned long>::cancel() => st_cancel
// REPLACE: sparta::DataInPort<unsigned long>::cancelIf(unsigned long const&) => st_cancelif
// REPLACE: sparta::DataInPort<unsigned long>::isDriven(unsigned long) const => st_driven
// REPLACE: sparta::DataInPort<unsigned long>::isDriven() const => st_driven0
// OPAQUE: getLocation
#include "verif.h"
#include "sparta/sparta.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
using namespace sparta;
using I = DataInPort<uint64_t>;
using O = DataOutPort<uint64_t>;
using VI = std::vector<I*>;
struct H { void** bound; char* ports; uint64_t n, g, calls, value, rel, inval; };
static H h_;
static const uint64_t SZ = 8192;       // the in ports are only reached through the stubs below
static_assert(sizeof(I) <= SZ && sizeof(SignalInPort) <= SZ, "");
static uint64_t idx(const void* p) { uint64_t d = (const char*)p - h_.ports; return d / SZ; }
static void* f_bound(uint64_t i, void*) { return h_.ports + i * SZ; }
static uint64_t cnt(uint64_t i) { return (uint32_t)v_uf("cancelled", i); }
static bool driven(uint64_t i) { return v_uf("driven", i) & 1; }
static void hit(const void* p, uint64_t v, uint64_t rel) {
    if (idx(p) == h_.g) h_.calls = h_.calls + 1;
    v_assert((v == h_.inval) & (rel == h_.rel), "out.same-value-and-delay-to-every-port");
}
extern "C" {
void st_send(I* p, const uint64_t& v, uint64_t rel) { hit(p, v, rel); }
void st_send0(SignalInPort* p, uint64_t rel) { hit(p, h_.inval, rel); }
uint32_t st_cancel(I* p) { hit(p, h_.inval, h_.rel); return cnt(idx(p)); }
uint32_t st_cancelif(I* p, const uint64_t& v) { hit(p, v, h_.rel); return cnt(idx(p)); }
bool st_driven(const I* p, uint64_t rel) { hit(p, h_.inval, rel); return driven(idx(p)); }
bool st_driven0(const I* p) { hit(p, h_.inval, h_.rel); return driven(idx(p)); }
void st_loc(std::string* r, void*) { new (r) std::string(); }
}
#define L4 (void*)st_loc, (void*)st_loc, (void*)st_loc, (void*)st_loc
static void* const vt_[32] = { L4, L4, L4, L4, L4, L4, L4, L4 };
// every port in front of the loop position was served once, none behind it
static bool inv(void*, void* it) { uint64_t i = (void**)it - h_.bound; return (i <= h_.n) & (h_.calls == (h_.g < i ? 1 : 0)); }
static bool invDriven(void*, void* it) { uint64_t i = (void**)it - h_.bound; return (i <= h_.n) & ((h_.g >= i) | !driven(h_.g)); }
template <class P, class T> static void bind(P* o, std::vector<T*>& v) {
    h_.calls = 0; h_.n = v_u32("bound ports"); h_.g = v_u64("g"); h_.inval = v_u64("value"); h_.rel = v_u64("delay");
    v_assume(h_.n < (1u << 30) && h_.g < h_.n + 1);
    h_.ports = (char*)v_array("in ports", h_.n + 1, SZ);
    h_.bound = (void**)v_array("bound", h_.n, 8);
    v_elem_ptr(h_.bound, 0, f_bound, nullptr);
    *(void* const**)(void*)o = vt_;
    auto& b = (std::_Vector_base<T*, std::allocator<T*>>&)v; b._M_impl._M_start = (T**)h_.bound; b._M_impl._M_finish = b._M_impl._M_end_of_storage = (T**)(h_.bound + h_.n);
}
extern "C" void vh_send_all() {
    O* o = v_obj<O>("out port"); bind(o, o->bound_in_ports_);
    v_invp(inv, nullptr);
    uint64_t v = h_.inval;
    try { o->send(v, h_.rel); } catch (const SpartaException&) { v_assert(h_.n == 0 && h_.calls == 0, "out.refused-only-when-unbound"); return; }
    v_cover("sent");
    v_assert(h_.n != 0, "out.unbound-refused");
    v_assert(h_.calls == (h_.g < h_.n ? 1 : 0), "out.every-bound-port-served-once");
}
extern "C" void vh_signal_all() {
    auto* o = v_obj<SignalOutPort>("out port"); bind(o, o->bound_in_ports_);
    v_invp(inv, nullptr);
    try { o->send(h_.rel); } catch (const SpartaException&) { v_assert(h_.n == 0 && h_.calls == 0, "out.refused-only-when-unbound"); return; }
    v_cover("sent");
    v_assert(h_.n != 0, "out.unbound-refused");
    v_assert(h_.calls == (h_.g < h_.n ? 1 : 0), "out.every-bound-port-served-once");
}
extern "C" void vh_cancel_all() {
    O* o = v_obj<O>("out port"); bind(o, o->bound_in_ports_);
    v_invp(inv, nullptr);
    uint64_t v = h_.inval;
    if (v_bool("all")) o->cancel(); else o->cancelIf(v);
    v_cover("cancelled");
    v_assert(h_.calls == (h_.g < h_.n ? 1 : 0), "out.cancel-reaches-every-port");
}
extern "C" void vh_driven() {
    O* o = v_obj<O>("out port"); bind(o, o->bound_in_ports_);
    v_invp(invDriven, nullptr);
    bool r = v_bool("now") ? o->isDriven() : o->isDriven(h_.rel);
    v_cover("asked");
    v_assert(r || h_.g >= h_.n || !driven(h_.g), "out.driven-if-any-port-is");
}

// PROPERTY: P20
// ASSUME: findMapping is used through its contract (memif.cpp)
// REPLACE: =log2 => st_log2
// REPLACE: sparta::StringManager::getStringManager() => st_sm
// REPLACE: sparta::StringManager::internString => st_intern
// REPLACE: sparta::memory::SimpleMemoryMap::findMapping => st_find
// REPLACE: sparta::memory::DebugMemoryIF::tryPeek( => st_peek
// REPLACE: sparta::memory::DebugMemoryIF::tryPoke( => st_poke
#include "verif.h"
#include "sparta/sparta.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
using namespace sparta; using namespace sparta::memory;
using MP = SimpleMemoryMap::Mapping;
struct H { MP* m; const void* dev; uint64_t calls, addr, size, kind; const uint8_t* buf; const void *in, *out, *who; bool res; };
static H h_;
static bool rec(int k, const void* w, addr_t a, addr_t n, const uint8_t* b, const void* i, const void* o) { h_.calls = h_.calls + 1; h_.kind = k; h_.who = w; h_.addr = a; h_.size = n; h_.buf = b; h_.in = i; h_.out = o; return h_.res; }
extern "C" {
double st_log2(double) { return 6; } void* st_sm() { return nullptr; } const std::string* st_intern(void*, const void*) { return nullptr; }
MP* st_find(void*, addr_t) { return h_.m; }
bool st_peek(const void* w, addr_t a, addr_t n, uint8_t* b) { return rec(3, w, a, n, b, nullptr, nullptr); }
bool st_poke(void* w, addr_t a, addr_t n, const uint8_t* b) { return rec(4, w, a, n, b, nullptr, nullptr); }
}
struct Dev : BlockingMemoryIF {
    Dev() : BlockingMemoryIF("", 64, AccessWindow(0, 64)) {}
    bool tryRead(addr_t a, addr_t n, uint8_t* b, const void* i, void* o) override { return rec(1, this, a, n, b, i, o); }
    bool tryWrite(addr_t a, addr_t n, const uint8_t* b, const void* i, void* o) override { return rec(2, this, a, n, b, i, o); }
    bool tryRead_(addr_t, addr_t, uint8_t*, const void*, void*) override { return false; }
    bool tryWrite_(addr_t, addr_t, const uint8_t*, const void*, void*) override { return false; }
    bool tryPeek_(addr_t, addr_t, uint8_t*) const override { return false; }
};
static SimpleMemoryMapNode* any() {
    auto* n = v_obj<SimpleMemoryMapNode>("map");
    h_.calls = 0; h_.res = v_bool("result");
    h_.dev = nullptr; h_.m = nullptr;
    if (v_bool("mapped")) {
        h_.m = v_obj<MP>("mapping");
        Dev* d = new Dev; h_.dev = (BlockingMemoryIF*)d;
        *const_cast<BlockingMemoryIF**>(&h_.m->memif) = d;
    }
    return n;
}
extern "C" void vh_route() {
    auto* s = any();
    uint64_t a = v_u64("addr"), n = v_u64("size"); uint8_t* b = v_obj<uint8_t>("buffer"); int *in = v_obj<int>("in"), *out = v_obj<int>("out");
    unsigned op = v_u8("op");
    bool r = op == 0 ? s->SimpleMemoryMapNode::tryRead_(a, n, b, in, out) : op == 1 ? s->SimpleMemoryMapNode::tryWrite_(a, n, b, in, out) : op == 2 ? s->SimpleMemoryMapNode::tryPeek_(a, n, b) : s->SimpleMemoryMapNode::tryPoke_(a, n, b);
    if (!h_.m) { v_cover("unmapped"); v_assert(!r && h_.calls == 0, "route.unmapped-access-touches-nothing"); return; }
    v_cover("mapped");
    v_assert(h_.calls == 1 && h_.who == h_.dev && h_.kind == (op < 3 ? op + 1 : 4) && r == h_.res, "route.exactly-the-mapped-destination");
    v_assert(h_.addr == h_.m->dest_off + (a - h_.m->start) && h_.size == n && h_.buf == b, "route.corresponding-address");
    if (op < 2) v_assert(h_.in == in && h_.out == out, "route.supplements");
}
extern "C" void vh_map_address() {
    SimpleMemoryMapNode* s = any();
    uint64_t a = v_u64("addr");
    auto r = s->mapAddress(a); auto* f = s->findInterface(a);
    if (!h_.m) { v_assert(r.first == nullptr && f == nullptr, "map.nothing-mapped"); v_cover("unmapped"); }
    else { v_assert(r.first == h_.dev && r.second == h_.m->dest_off + (a - h_.m->start) && f == h_.dev, "map.destination-and-address"); v_cover("mapped"); }
}

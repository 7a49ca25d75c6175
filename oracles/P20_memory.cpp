// PROPERTY: P20
// FULL
#include <exception>
#include "oracle.h"
#include "sparta/sparta.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
#include "sparta/memory/BlockingMemoryIFNode.hpp"
#include <map>
#include <memory>
using namespace sparta; using namespace sparta::memory;
struct Dev : BlockingMemoryIF {          // bytes that may be touched, and nothing else
    std::vector<uint8_t> d; uint64_t lo; unsigned id;
    Dev(unsigned i, addr_t bs, addr_t start, addr_t size) : BlockingMemoryIF("dev", bs, AccessWindow(start, start + size)), d(size), lo(start), id(i) { for (size_t k = 0; k < size; ++k) d[k] = i * 37 + k * 11; }
    void chk(addr_t a, addr_t n) const { CHECK(a >= lo && a - lo + n <= d.size() && n <= d.size(), "device asked for bytes [%llx,+%llx) outside of its window", (unsigned long long)a, (unsigned long long)n); CHECK(((a ^ (a + n - 1)) & ~(block_size_ - 1)) == 0, "device asked for an access across blocks"); }
    bool tryRead_(addr_t a, addr_t n, uint8_t* b, const void*, void*) override { chk(a, n); memcpy(b, &d[a - lo], n); return true; }
    bool tryWrite_(addr_t a, addr_t n, const uint8_t* b, const void*, void*) override { chk(a, n); memcpy(&d[a - lo], b, n); return true; }
    bool tryPeek_(addr_t a, addr_t n, uint8_t* b) const override { chk(a, n); memcpy(b, &d[a - lo], n); return true; }
};
static uint64_t addr(Rng& r, uint64_t lo, uint64_t hi) { unsigned k = r.below(10); return k < 6 ? lo + r.below(hi - lo + 8) : k < 8 ? hi - r.below(20) : k == 8 ? 0ull - r.below(40) : r.weird(); }
// one interface: windows and blocks
static void iface(Rng& r) {
    uint64_t bs = 1ull << r.below(7), st = bs * (r.chance(50) ? 0 : r.below(100)), sz = bs * r.range(1, 8);
    if (r.chance(20)) st = (0ull - sz - bs) & ~(bs - 1);
    CASE("BlockingMemoryIF(block %llu, window [%llx,+%llx))", (unsigned long long)bs, (unsigned long long)st, (unsigned long long)sz);
    Dev d(1, bs, st, sz); auto m = d.d;
    for (unsigned s = 0; s < 60; ++s) {
        uint64_t a = addr(r, st, st + sz), n = r.chance(80) ? r.range(1, bs) : r.chance(70) ? r.range(1, 4 * bs) : r.weird() | 1;
        bool in = a >= st && a - st < sz && n <= sz - (a - st), one = in && (a & ~(bs - 1)) == ((a + n - 1) & ~(bs - 1));
        uint8_t buf[1024]; for (auto& x : buf) x = r.next(); uint8_t old[1024]; memcpy(old, buf, sizeof buf);
        unsigned op = r.below(6);
        OP("%s(%llx, %llu)", op == 0 ? "tryRead" : op == 1 ? "tryWrite" : op == 2 ? "tryPeek" : op == 3 ? "tryPoke" : op == 4 ? "read" : "write", (unsigned long long)a, (unsigned long long)n);
        bool ok = true;
        if (op >= 4 && !one && r.chance(80)) continue;
        switch (op) {
        case 0: ok = d.tryRead(a, n, buf); break; case 1: ok = d.tryWrite(a, n, buf); break; case 2: ok = d.tryPeek(a, n, buf); break; case 3: ok = d.tryPoke(a, n, buf); break;
        case 4: ok = !throws([&] { d.read(a, n, buf); }); break; default: ok = !throws([&] { d.write(a, n, buf); });
        }
        bool want = op == 2 || op == 3 ? in : one;
        CHECK(ok == want, "accepted=%d, but %s", ok, want ? "the access is inside the window and one block" : "the access crosses a block or leaves the window");
        if (ok && (op == 1 || op == 3 || op == 5)) memcpy(&m[a - st], buf, n);
        CHECK(d.d == m, "exactly the written bytes change");
        if (ok && (op == 0 || op == 2 || op == 4)) CHECK(!memcmp(buf, &m[a - st], n), "bytes read"); else CHECK(!memcmp(buf, old, sizeof buf), "buffer untouched");
        if (n < 4096) { CHECK(d.isInAccessWindows(a, n) == in, "isInAccessWindows"); CHECK(d.isAddressInWindows(a) == (a >= st && a - st < sz), "isAddressInWindows"); }
    }
    if (r.chance(5)) CHECK(throws([&] { Dev x(1, bs * 2, bs, bs * 4); }) || bs == 0, "unaligned window must be refused");
}
// a map of many mappings
static void mapping(Rng& r) {
    uint64_t bs = 1ull << r.range(2, 6), blocks = r.chance(70) ? r.range(1, 40) : r.range(40, 200), total = bs * blocks;
    CASE("SimpleMemoryMapNode(block %llu, %llu blocks)", (unsigned long long)bs, (unsigned long long)blocks);
    RootTreeNode root("root");
    SimpleMemoryMapNode map(&root, "map", "map", bs, total);
    std::vector<std::unique_ptr<Dev>> devs; std::vector<std::vector<uint8_t>> model;
    for (unsigned i = 0; i < 3; ++i) { uint64_t n = bs * r.range(1, blocks); devs.emplace_back(new Dev(i, bs, 0, n)); model.push_back(devs.back()->d); }
    struct M { uint64_t s, e, off; unsigned dev; };
    std::vector<M> ms;
    unsigned tries = r.range(1, 60), mean = r.range(1, 6);
    for (unsigned t = 0; t < tries; ++t) {
        uint64_t s = bs * r.below(blocks), len = bs * r.range(1, r.chance(80) ? mean : blocks), e = std::min(s + len, total), off;
        unsigned k = r.below(3);
        if (r.chance(60) && ms.size()) { auto& x = ms[r.below(ms.size())]; s = r.chance(50) ? x.e : x.s >= bs ? x.s - std::min(x.s, bs * r.range(1, mean)) : 0; e = std::min(s + bs * r.range(1, mean), total); if (r.chance(60) && s < x.s) e = x.s; }
        if (s >= e || s >= total) continue;
        uint64_t sz = devs[k]->d.size();
        bool fits = sz >= e - s;
        off = fits ? bs * r.below((sz - (e - s)) / bs + 1) : 0;
        bool over = false; for (auto& x : ms) over |= s < x.e && x.s < e;
        bool refuse = over || !fits;
        if (refuse && r.chance(80)) continue;
        OP("addMapping(%llx, %llx, dev%u, %llx)", (unsigned long long)s, (unsigned long long)e, k, (unsigned long long)off);
        bool th = throws([&] { map.addMapping(s, e, devs[k].get(), off); });
        CHECK(th == refuse, th ? "a mapping that fits and overlaps none must be accepted" : "an overlapping mapping must be refused");
        if (!th) ms.push_back({s, e, off, k});
        CHECKEQ(map.getNumMappings(), ms.size(), "number of mappings");
        if (r.chance(20) || t + 1 == tries) for (uint64_t q = 0; q < 3 * (blocks + 1); ++q) {
            uint64_t a = q / 3 * bs + (q % 3 == 0 ? 0 : q % 3 == 1 ? bs / 2 : bs - 1);
            const M* x = nullptr; for (auto& y : ms) if (a >= y.s && a < y.e) x = &y;
            auto* f = map.findMapping(a); const SimpleMemoryMapNode& cm = map;
            CHECK((f != nullptr) == (x != nullptr), "mapping of %llx", (unsigned long long)a);
            CHECK(cm.findMapping(a) == f, "const search of %llx", (unsigned long long)a);
            auto p = map.mapAddress(a);
            if (x) { CHECK(f->start == x->s && f->end == x->e && f->memif == devs[x->dev].get() && p.first == f->memif && p.second == a - x->s + x->off && map.findInterface(a) == p.first, "destination of %llx", (unsigned long long)a); }
            else CHECK(p.first == nullptr && map.findInterface(a) == nullptr, "destination of unmapped %llx", (unsigned long long)a);
        }
    }
    for (unsigned t = 0; t < 60; ++t) {
        uint64_t a = addr(r, 0, total), n = r.chance(80) ? r.range(1, bs) : r.range(1, 3 * bs); unsigned op = r.below(4);
        if (ms.size() && r.chance(50)) { auto& x = ms[r.below(ms.size())]; a = r.chance(50) ? x.s + r.below(x.e - x.s) : r.chance(50) ? x.s - 1 : x.e - 1; }
        const M* x = nullptr; for (auto& y : ms) if (a >= y.s && a < y.e) x = &y;
        bool one = a < total && n <= total - a && (a & ~(bs - 1)) == ((a + n - 1) & ~(bs - 1));
        if (op >= 2 && !one) continue;
        uint8_t buf[1024]; for (auto& c : buf) c = r.next();
        OP("%s(%llx, %llu)", op == 0 ? "tryRead" : op == 1 ? "tryWrite" : op == 2 ? "tryPeek" : "tryPoke", (unsigned long long)a, (unsigned long long)n);
        bool ok = op == 0 ? map.tryRead(a, n, buf) : op == 1 ? map.tryWrite(a, n, buf) : op == 2 ? map.tryPeek(a, n, buf) : map.tryPoke(a, n, buf);
        CHECK(ok == (x && one), "access to a %s address", x && one ? "mapped" : "refused");
        if (ok) { auto& m = model[x->dev]; uint64_t d = a - x->s + x->off; if (op & 1) memcpy(&m[d], buf, n); else CHECK(!memcmp(&m[d], buf, n), "bytes of the mapped destination"); }
        for (unsigned i = 0; i < 3; ++i) CHECK(devs[i]->d == model[i], "exactly the mapped bytes change");
    }
    root.enterTeardown();
}
// memory objects
static void object(Rng& r) {
    uint64_t bs = 1ull << r.range(2, 7), blocks = r.range(1, 12), total = bs * blocks;
    uint64_t fill = r.next(); unsigned fw = 1u << r.below(4);
    CASE("MemoryObject(block %llu, size %llu)", (unsigned long long)bs, (unsigned long long)total);
    if (fw > bs) fw = 1;
    if (fw < 8) fill &= (1ull << (8 * fw)) - 1;
    RootTreeNode root("root");
    MemoryObject mem(&root, bs, total, fill, fw);
    BlockingMemoryObjectIFNode node(&root, "mem", "mem", nullptr, mem);
    std::vector<uint8_t> m(total); for (uint64_t i = 0; i < total; ++i) m[i] = fill >> (8 * (i % bs % fw));
    for (unsigned t = 0; t < 50; ++t) {
        uint64_t a = addr(r, 0, total), n = r.chance(80) ? r.range(1, bs) : r.range(1, 3 * bs); unsigned op = r.below(4);
        bool in = a < total && n <= total - a, one = in && a / bs == (a + n - 1) / bs;
        uint8_t buf[1024]; for (auto& c : buf) c = r.next();
        OP("%s(%llx, %llu)", op == 0 ? "tryRead" : op == 1 ? "tryWrite" : op == 2 ? "tryPeek" : "tryPoke", (unsigned long long)a, (unsigned long long)n);
        bool ok = op == 0 ? node.tryRead(a, n, buf) : op == 1 ? node.tryWrite(a, n, buf) : op == 2 ? node.tryPeek(a, n, buf) : node.tryPoke(a, n, buf);
        CHECK(ok == (op >= 2 ? in : one), "access accepted exactly when inside");
        if (ok) { if (op & 1) memcpy(&m[a], buf, n); else CHECK(!memcmp(&m[a], buf, n), "bytes read at %llx", (unsigned long long)a); }
        if (r.chance(20)) { std::vector<uint8_t> all(total); CHECK(node.tryPeek(0, total, all.data()), "peek of all"); CHECK(all == m, "exactly the written bytes change"); }
    }
    root.enterTeardown();
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned c = 0; c < 300 * scale; ++c) { for (int k = 0; k < 6; ++k) iface(r); mapping(r); if (c % 3 == 0) object(r); }
}

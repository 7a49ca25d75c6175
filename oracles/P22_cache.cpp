// PROPERTY: P22
// FLAGS: -O1 -fsanitize=address -I/repo/sparta
#include <exception>
#include <vector>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <cassert>
#include <bitset>
#include <algorithm>
#include "sparta/utils/SpartaAssert.hpp"
#include "sparta/utils/MathUtils.hpp"
#include "cache/LineData.hpp"
#include "cache/SimpleCache2.hpp"
#include "cache/SimpleCache.hpp"
#include "cache/LRUReplacement.hpp"
#include "cache/TreePLRUReplacement.hpp"
#include "oracle.h"
using namespace sparta; using namespace sparta::cache;
struct L : LineDataWithNT { using LineDataWithNT::LineDataWithNT; using LineData::reset; using LineDataWithNT::reset; };
// model of one set's policy: order (LRU) or direction bits (tree, as ranges of ways)
struct Pol {
    bool lru; uint32_t n; std::vector<uint32_t> ord; std::map<std::pair<uint32_t, uint32_t>, bool> dir;   // dir[lo,hi] : victim is in the upper half
    Pol(bool l, uint32_t n_) : lru(l), n(n_) { for (uint32_t i = 0; i < n; ++i) ord.push_back(i); }
    void touch(uint32_t w, bool mru) {
        auto it = std::find(ord.begin(), ord.end(), w); ord.erase(it); ord.insert(mru ? ord.end() : ord.begin(), w);
        for (uint32_t lo = 0, hi = n; hi - lo > 1;) { uint32_t mid = (lo + hi) / 2; bool up = w >= mid; dir[{lo, hi}] = mru ? !up : up; if (up) lo = mid; else hi = mid; }
    }
    uint32_t walk(bool flip) { uint32_t lo = 0, hi = n; while (hi - lo > 1) { uint32_t mid = (lo + hi) / 2; if (dir[{lo, hi}] != flip) lo = mid; else hi = mid; } return lo; }
    uint32_t victim() { return lru ? ord.front() : walk(false); }
    uint32_t recent() { return lru ? ord.back() : walk(true); }
    void reset() { dir.clear(); }
};
struct Ln { bool valid = false, mod = false, nt = false; uint64_t blk = 0; };
static uint64_t addr(Rng& r, uint64_t span) { return r.chance(80) ? r.below(span) : r.chance(50) ? r.next() : (r.below(span) | (1ull << (40 + r.below(24)))); }
static void cache2(Rng& r) {
    uint64_t line = 1ull << r.range(2, 7), ways, sets = 1ull << r.below(5); bool lru = r.chance(50);
    ways = lru ? r.range(1, 9) : (1ull << r.below(5));
    bool kb = (line * ways * sets) % 1024 == 0 && r.chance(50);
    uint64_t sz = line * ways * sets / (kb ? 1024 : 1);
    CASE("SimpleCache2 size=%llu kb=%d line=%llu ways=%llu sets=%llu %s", (unsigned long long)sz, kb, (unsigned long long)line, (unsigned long long)ways, (unsigned long long)sets, lru ? "LRU" : "tree");
    LRUReplacement a(ways); std::unique_ptr<TreePLRUReplacement> b(lru ? nullptr : new TreePLRUReplacement(ways));
    SimpleCache2<L> c(sz, line, line, L(line), lru ? (ReplacementIF&)a : (ReplacementIF&)*b, kb);
    CHECKEQ(c.getNumSets(), sets, "number of sets"); CHECKEQ(c.getNumWays(), ways, "number of ways");
    std::vector<std::vector<Ln>> m(sets, std::vector<Ln>(ways)); std::vector<Pol> p(sets, Pol(lru, ways)); std::vector<uint32_t> pnt(sets, 0);
    std::map<uint64_t, std::vector<uint8_t>> data;
    uint64_t span = line * ways * sets * 3;
    auto at = [&](uint64_t s, uint64_t w) -> L& { return c.getCacheSet(s * line).getItemAtWay(w); };
    for (int k = 0; k < 150; ++k) {
        uint64_t x = addr(r, span), blk = x & ~(line - 1), s = (x / line) % sets; int hit = -1;
        for (uint64_t w = 0; w < ways; ++w) if (m[s][w].valid && m[s][w].blk == blk) hit = w;
        unsigned op = r.below(14);
        if (op == 13 && !r.chance(8)) op = 0;
        OP("op %u addr=%llx set=%llu hit way=%d", op, (unsigned long long)x, (unsigned long long)s, hit);
        CHECKEQ(c.isHit(x), hit >= 0, "isHit");
        L* l = c.getLine(x); const L* q = c.peekLine(x);
        CHECK(l == q && (l != nullptr) == (hit >= 0), "lookup");
        if (l) { CHECKEQ((int)l->getWay(), hit, "way of the line"); CHECKEQ(l->getSetIndex(), s, "set of the line"); CHECKEQ(l->getAddr(), blk, "address of the line"); }
        uint32_t open = ways; for (uint64_t w = ways; w-- > 0;) if (!m[s][w].valid) open = w;
        CHECKEQ(c.hasOpenWay(x), open < ways, "hasOpenWay"); CHECKEQ(c.getCacheSet(x).findInvalidWay(), open, "first open way");
        bool cold; L* lc = c.getCacheSet(x).getItem(c.getAddrDecoder()->calcTag(x), cold); CHECK(lc == l, "lookup with cold-miss report"); if (!l) CHECKEQ(cold, open < ways, "cold miss");
        switch (op) {
        case 0: case 1: case 2: case 3: {       // allocate
            if (hit >= 0) { c.touchMRU(*l); p[s].touch(hit, true); break; }
            bool inv = op >= 2; bool nt = op == 1 && ways >= 2 && r.chance(30);
            L* v; uint32_t w;
            if (nt) { v = &c.getLineForReplacement(x, true); w = !m[s][0].nt ? 0 : !m[s][1].nt ? 1 : pnt[s] == 0 ? 0 : 1; }
            else if (inv) { v = &c.getLineForReplacementWithInvalidCheck(x); w = open < ways ? open : p[s].victim(); }
            else { v = &c.getLineForReplacement(x); w = p[s].victim(); }
            CHECKEQ(v->getWay(), w, "way chosen for replacement"); CHECK(v == &at(s, w), "line chosen is in the set of the address");
            CHECKEQ(v->isValid(), m[s][w].valid, "validity of the line chosen"); if (m[s][w].valid) { CHECKEQ(v->getAddr(), m[s][w].blk, "address of the line chosen"); data.erase(m[s][w].blk); }
            if (op == 1) { c.allocateWithMRUUpdate(*v, x, nt); m[s][w].nt = nt; if (nt) pnt[s] = w; } else c.allocateWithMRUUpdate(*v, x);
            m[s][w].valid = true; m[s][w].blk = blk; m[s][w].mod = false; p[s].touch(w, true);
            std::vector<uint8_t> d(line); for (auto& y : d) y = r.next(); v->write(0, line, d.data()); data[blk] = d;
            break; }
        case 4: if (l) { c.touchMRU(*l); p[s].touch(hit, true); } break;
        case 5: if (l) { c.touchLRU(*l); p[s].touch(hit, false); } break;
        case 6: if (l) { c.invalidateLineWithLRUUpdate(*l); m[s][hit].valid = false; m[s][hit].nt = false; p[s].touch(hit, false); data.erase(blk); } break;
        case 7: case 8: if (l) { uint32_t o = x % line, n = r.range(1, line - o); std::vector<uint8_t> d(n); for (auto& y : d) y = r.next(); c.writeWithMRUUpdate(*l, x, n, d.data()); memcpy(&data[blk][o], d.data(), n); m[s][hit].mod = true; p[s].touch(hit, true); } break;
        case 9: case 10: if (l) { uint32_t o = x % line, n = r.range(1, line - o); std::vector<uint8_t> d(n); c.readWithMRUUpdate(*l, x, n, d.data()); CHECK(!memcmp(&data[blk][o], d.data(), n), "bytes read"); p[s].touch(hit, true); } break;
        case 13: c.invalidateAll(); for (auto& v : m) for (auto& y : v) y.valid = false; for (auto& y : p) y.reset(); data.clear(); break;
        }
        s = r.below(sets);
        uint64_t w = r.below(ways); const L& z = at(s, w);
        CHECKEQ(z.isValid(), m[s][w].valid, "validity of another line");
        if (z.isValid()) { CHECKEQ(z.getAddr(), m[s][w].blk, "address of another line"); CHECKEQ(z.isModified(), m[s][w].mod, "modified flag of another line"); CHECK(!memcmp(z.getDataPtr(), data[m[s][w].blk].data(), line), "data of another line"); }
        auto& set = c.getCacheSet(s * line);
        CHECKEQ(set.getReplacementIF()->getLRUWay(), p[s].victim(), "victim"); CHECKEQ(set.getReplacementIF()->getMRUWay(), p[s].recent(), "most recent way");
    }
}
// the blocking cache over a real memory: reads always return what was last written
struct Mem { std::map<uint64_t, uint8_t> b; uint8_t get(uint64_t a) { return b.count(a) ? b[a] : (uint8_t)(a * 37 >> 3); } };
struct C1 : SimpleCache<L> {
    Mem* mem; uint64_t line; unsigned co = 0, rl = 0, nl = 0;
    C1(Mem* m, uint64_t kb, uint64_t ln, const ReplacementIF& rp) : SimpleCache<L>(kb, ln, ln, L(ln), rp), mem(m), line(ln) {}
    void castout_(const L& l) override { SimpleCache<L>::castout_(l); ++co; for (uint64_t i = 0; i < line; ++i) mem->b[l.getAddr() + i] = l.getDataPtr()[i]; }
    void reload_(uint64_t a, L& l) override { SimpleCache<L>::reload_(a, l); ++rl; for (uint64_t i = 0; i < line; ++i) l.getDataPtr()[i] = mem->get(a + i); }
    void writeNextLevel_(uint64_t a, uint32_t n, const uint8_t* p) override { SimpleCache<L>::writeNextLevel_(a, n, p); ++nl; for (uint32_t i = 0; i < n; ++i) mem->b[a + i] = p[i]; }
};
static void cache1(Rng& r) {
    uint64_t line = 1ull << r.range(6, 9), ways = 1ull << r.below(4); bool lru = r.chance(50), wt = r.chance(40), wa = r.chance(50);
    if (line * ways > 1024) ways = 1024 / line;
    CASE("SimpleCache line=%llu ways=%llu %s write-through=%d write-allocate=%d", (unsigned long long)line, (unsigned long long)ways, lru ? "LRU" : "tree", wt, wa);
    Mem mem, flat; LRUReplacement a(ways); TreePLRUReplacement b(ways);
    C1 c(&mem, 1, line, lru ? (ReplacementIF&)a : (ReplacementIF&)b); c.setWriteThroughMode(wt); c.setWriteAllocateMode(wa);
    uint64_t rd = 0, wr = 0, rm = 0, wm = 0, gm = 0;
    for (int k = 0; k < 120; ++k) {
        uint64_t x = addr(r, 4096) & 0xffffffffffull; uint32_t o = x % line, n = r.range(1, std::min<uint64_t>(line - o, 24)); uint8_t d[24];
        bool hit = c.isHit(x); unsigned op = r.below(8);
        bool need = false, dirty = false; uint64_t ca = 0; CHECKEQ(c.isHitWithCastout(x, need, ca, dirty), hit, "isHitWithCastout"); if (hit) CHECK(!need, "no castout on a hit");
        unsigned co0 = c.co;
        OP("op %u addr=%llx size=%u hit=%d", op, (unsigned long long)x, n, hit);
        if (op < 3) { c.read(x, n, d); ++rd; rm += !hit; for (uint32_t i = 0; i < n; ++i) CHECKEQ(d[i], flat.get(x + i), "byte read differs from the byte last written"); CHECK(c.isHit(x), "line present after read"); CHECKEQ(c.co - co0, (unsigned)(need && dirty), "castout exactly when predicted"); }
        else if (op < 6) { for (uint32_t i = 0; i < n; ++i) flat.b[x + i] = d[i] = r.next(); c.write(x, n, d); ++wr; wm += !hit; CHECKEQ(c.isHit(x), hit || wa, "line present after write"); }
        else if (op == 6) { L* l = c.getLine(x); gm += !hit; for (uint64_t i = 0; i < line; ++i) CHECKEQ(l->getDataPtr()[i], flat.get((x & ~(line - 1)) + i), "line data"); }
        else if (hit && (wt || !c.peekLine(x)->isModified())) {
            if (c.peekLine(x)->isModified()) for (uint64_t i = 0; i < line; ++i) mem.b[(x & ~(line - 1)) + i] = c.peekLine(x)->getDataPtr()[i];
            c.invalidateLine(x); CHECK(!c.isHit(x), "invalidated line");
        }
        CHECKEQ(c.getNumReads(), rd, "reads"); CHECKEQ(c.getNumWrites(), wr, "writes"); CHECKEQ(c.getNumReadMisses(), rm, "read misses"); CHECKEQ(c.getNumWriteMisses(), wm, "write misses");
        CHECKEQ(c.getNumGetLineMisses(), gm, "getLine misses"); CHECKEQ(c.getNumCastouts(), c.co, "castouts"); CHECKEQ(c.getNumReloads(), c.rl, "reloads"); CHECKEQ(c.getNumWriteNextLevel(), c.nl, "writes to the next level");
    }
}
void oracle(Rng& r, unsigned scale) {
    for (unsigned i = 0; i < 3000 * scale; ++i) { cache2(r); if (i % 3 == 0) cache1(r); }
    for (unsigned i = 0; i < 20000 * scale; ++i) {
        unsigned a = r.below(10), c = r.below(12), wy = r.range(1, 20), b = a;
        if (i % 50 == 0) CASE("decode line=2^%u sets=2^%u ways=%u", a, c, wy);
        DefaultAddrDecoder d((1ull << (a + c)) * wy, 1ull << a, 1ull << b, wy, false);
        uint64_t x = r.weird(); uint32_t s = d.calcIdx(x);
        CHECKEQ(d.calcBlockAddr(x) + d.calcBlockOffset(x), x, "block address and offset make up the address");
        CHECK(s < (1u << c) && ((d.calcTag(x) << c | s) << a | d.calcBlockOffset(x)) == x, "tag, set and offset make up the address");
    }
}

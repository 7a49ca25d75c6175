// PROPERTY: P22
#include "verif.h"
#include <vector>
#include <list>
#include <memory>
#include <cstring>
#include <cstddef>
#include <cassert>
#include "sparta/utils/SpartaAssert.hpp"
#include "sparta/utils/MathUtils.hpp"
#include "cache/AddrDecoderIF.hpp"
#include "cache/LineData.hpp"
#include "cache/ReplacementIF.hpp"
#include "cache/TreePLRUReplacement.hpp"
using namespace sparta;
using namespace sparta::cache;
typedef LineData L;
// ------------------------------------------------------------------ tree order: every power-of-two number of ways, any bits, any way
template <uint32_t N> static void tree() {
    TreePLRUReplacement* r = v_obj<TreePLRUReplacement>("tree");
    { TreePLRUReplacement t(N); memcpy((void*)r, (void*)&t, sizeof t); }
    uint64_t b0 = v_u64("bits0"), b1 = v_u64("bits1"); uint32_t w = v_u32("way"), k = v_u8("k"); v_assume(w < N && k < 128);
    uint64_t* b = (uint64_t*)&r->plru_bits_; b[0] = b0; b[1] = b1;
    const ReplacementIF* i = r;
    v_assert(i->getLRUWay() < N && i->getMRUWay() < N && (N == 1 || i->getLRUWay() != i->getMRUWay()), "tree.victim-and-most-recent-are-ways");
    bool mru = v_bool("mru");
    if (mru) ((ReplacementIF*)r)->touchMRU(w); else ((ReplacementIF*)r)->touchLRU(w);
    if (mru) v_assert(i->getMRUWay() == w && (N == 1 || i->getLRUWay() != w), "tree.touch-mru-protects-the-way");
    else v_assert(i->getLRUWay() == w && (N == 1 || i->getMRUWay() != w), "tree.touch-lru-makes-the-way-the-victim");
    // only the bits on the path from the root to the way change
    bool on = false;
    for (uint32_t x = (w + N) >> 1; x; x >>= 1) on = on | (x == k);
    bool was = ((k < 64 ? b0 : b1) >> (k & 63)) & 1, is = ((k < 64 ? b[0] : b[1]) >> (k & 63)) & 1;
    v_assert(on || was == is, "tree.other-bits-unchanged");
    r->reset(); v_assert(b[0] == 0 && b[1] == 0, "tree.reset-clears");
}
extern "C" void vh_tree1() { tree<1>(); }
extern "C" void vh_tree2() { tree<2>(); }
extern "C" void vh_tree4() { tree<4>(); }
extern "C" void vh_tree8() { tree<8>(); }
extern "C" void vh_tree16() { tree<16>(); }
extern "C" void vh_tree32() { tree<32>(); }
extern "C" void vh_tree64() { tree<64>(); }
extern "C" void vh_tree128() { tree<128>(); }
// ------------------------------------------------------------------ data of a line: size is the length, no byte outside the block moves
extern "C" void vh_line() {
    L* l = v_obj<L>("line"); uint64_t n = v_u32("line size"), off = v_u64("offset"), k = v_u64("k"); v_assume(n < (1u << 24) && k < n);
    uint8_t* d = (uint8_t*)v_array("data", n, 1);
    l->line_sz_ = n; l->data_ = d;
    uint8_t buf[8], old[8]; for (int i = 0; i < 8; ++i) buf[i] = v_u8("b");
    uint8_t dk = d[k]; bool v = l->valid_, m = l->modified_;
    v_assume(off + 8 <= n && off < n);
    bool rc = l->read(off, 8, old);
    for (int i = 0; i < 8; ++i) v_assert(old[i] == d[off + i], "line.read-returns-the-bytes");
    rc &= l->write(off, 8, buf);
    for (int i = 0; i < 8; ++i) v_assert(d[off + i] == buf[i], "line.write-stores-the-bytes");
    v_assert(rc && ((k >= off && k < off + 8) || d[k] == dk) && l->valid_ == v && l->modified_ == m, "line.rest-unchanged");
}
extern "C" void vh_line_bounds() {
    L* l = v_obj<L>("line"); uint64_t n = v_u32("line size"), off = v_u32("offset"); uint32_t sz = v_u32("size"); v_assume(n < (1u << 24));
    l->line_sz_ = n; l->data_ = (uint8_t*)v_array("data", n, 1);
    uint8_t b[1]; v_assume(off + sz > n);
    bool w = v_bool("w"), thrown = false;
    try { if (w) l->write(off, sz, b); else l->read(off, sz, b); } catch (const SpartaException&) { thrown = true; }
    v_assert(thrown, "line.access-beyond-the-block-is-refused");
}

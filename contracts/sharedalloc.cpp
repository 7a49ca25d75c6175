// PROPERTY: P14
// ASSUME: representation invariant of the allocator: free blocks are distinct constructed blocks of the pool whose counts live in the block
#include "verif.h"
#include <vector>
#include <memory>
#include <cstddef>
#include <functional>
#include <iostream>
#include <cstring>
#include "sparta/utils/SpartaSharedPointer.hpp"
#include "sparta/utils/SpartaSharedPointerAllocator.hpp"
using namespace sparta;
static uint64_t destroyed_, made_;
static void* last_;
struct Obj { uint64_t v; explicit Obj(uint64_t x) : v(x) { ++made_; last_ = this; } ~Obj() { ++destroyed_; last_ = this; } };
typedef SpartaSharedPointer<Obj> SP;
typedef SpartaSharedPointerAllocator<Obj> AL;
typedef AL::MemBlock MB;
typedef SP::RefCount RC;
static char* mem_;
static uint64_t perm(uint64_t i) { return v_uf("block", i); }
static const uint64_t RCOFF = offsetof(MB, ref_count_storage), OBOFF = offsetof(MB, object_storage);
static void* freeAt(uint64_t i, void* cap) { uint64_t k = perm(i); v_assume(k < *(uint64_t*)cap); return mem_ + k * sizeof(MB); }
static void* rcAt(uint64_t i, void*) { return mem_ + i * sizeof(MB) + RCOFF; }
static void* obAt(uint64_t i, void*) { return mem_ + i * sizeof(MB) + OBOFF; }
static AL* al_;
static void* alAt(uint64_t, void*) { return al_; }
struct S { AL* a; uint64_t cap, size, free; MB** fl; };
static uint64_t cap_;
static S state() {
    S s;
    s.cap = v_u64("capacity"); s.size = v_u64("size"); s.free = v_u64("free");
    v_assume(s.cap >= 1 && s.cap < (1ull << 32) && s.size <= s.cap && s.free <= s.size);
    cap_ = s.size;
    s.a = al_ = v_obj<AL>("allocator");
    { static AL* proto; (void)proto; AL tmp(1, 1); memcpy((void*)s.a, (void*)&tmp, sizeof(void*)); }    // the real vtable
    mem_ = (char*)v_array("blocks", s.cap, sizeof(MB));
    s.fl = (MB**)v_array("free list", s.cap, 8);
    v_elem_ptr(s.fl, 0, freeAt, &cap_);
    v_elem_ptr(mem_, offsetof(MB, ref_count), rcAt, nullptr);
    v_elem_ptr(mem_, offsetof(MB, object), obAt, nullptr);
    v_elem_ptr(mem_, offsetof(MB, alloc), alAt, nullptr);
    v_elem_ptr(mem_, RCOFF + offsetof(RC, p), obAt, nullptr);
    auto& d = *(AL::MemBlockVector*)&s.a->memory_blocks_;
    d.size_ = s.size;
    typedef std::remove_reference<decltype(d.data_[0])>::type ST;
    d.data_._M_impl._M_start = (ST*)mem_; d.data_._M_impl._M_finish = d.data_._M_impl._M_end_of_storage = (ST*)(mem_ + s.cap * sizeof(MB));
    s.a->free_blocks_._M_impl._M_start = s.fl; s.a->free_blocks_._M_impl._M_finish = s.a->free_blocks_._M_impl._M_end_of_storage = s.fl + s.cap;
    s.a->free_idx_ = s.free; s.a->allocated_ = s.size;
    *(size_t*)&s.a->water_mark_ = s.cap; s.a->water_mark_warning_ = true;
    return s;
}
extern "C" void vh_alloc_reuse() {
    S s = state(); v_assume(s.free >= 1);
    MB* b = s.fl[s.free - 1];
    uint64_t x = v_u64("value"), m = made_, d = destroyed_;
    uint64_t g = v_u64("g"); v_assume(g < s.free - 1); MB* gb = s.fl[g];
    v_assume(b->ref_count->wp_count == 0);     // free blocks are unreferenced
    SP* p = v_obj<SP>("p"); new (p) SP(allocate_sparta_shared_pointer<Obj>(*s.a, x));
    v_assert(p->get() == (Obj*)&b->object_storage && p->get()->v == x && made_ == m + 1 && destroyed_ == d, "allocate.constructs-in-a-free-block");
    v_assert(p->use_count() == 1 && p->ref_count_ == (RC*)&b->ref_count_storage && p->ref_count_->mem_block == b, "allocate.one-owner");
    v_assert(s.a->free_idx_ == s.free - 1 && s.a->allocated_ == s.size && s.a->memory_blocks_.size() == s.size && s.fl[g] == gb, "allocate.takes-exactly-one-free-block");
    // and the last owner gives it back
    p->~SP();
    v_assert(destroyed_ == d + 1 && last_ == (void*)&b->object_storage, "release.destroys-the-object-once");
    v_assert(s.a->free_idx_ == s.free && s.fl[s.free - 1] == b && s.fl[g] == gb, "release.block-is-free-again");
    v_cover("done");
}
extern "C" void vh_alloc_fresh() {
    S s = state(); v_assume(s.free == 0 && s.size < s.cap);
    uint64_t x = v_u64("value"), m = made_, d = destroyed_;
    MB* b = (MB*)(mem_ + s.size * sizeof(MB));
    SP* p = v_obj<SP>("p"); new (p) SP(allocate_sparta_shared_pointer<Obj>(*s.a, x));
    v_assert(p->get() == (Obj*)&b->object_storage && p->get()->v == x && made_ == m + 1 && destroyed_ == d, "allocate.constructs-in-an-unused-block");
    v_assert(p->use_count() == 1 && s.a->memory_blocks_.size() == s.size + 1 && s.a->allocated_ == s.size + 1 && s.a->free_idx_ == 0, "allocate.accounts");
    SpartaWeakPointer<Obj>* w = v_obj<SpartaWeakPointer<Obj>>("w"); new (w) SpartaWeakPointer<Obj>(*p);
    p->~SP();
    v_assert(destroyed_ == d + 1 && s.a->free_idx_ == 0 && w->expired() && !w->lock(), "release.block-kept-while-observed");
    w->~SpartaWeakPointer<Obj>();
    v_assert(destroyed_ == d + 1 && s.a->free_idx_ == 1 && s.fl[0] == b, "release.block-free-after-the-last-observer");
    v_cover("done");
}
extern "C" void vh_alloc_full() {
    S s = state(); v_assume(s.free == 0 && s.size == s.cap);
    uint64_t m = made_; bool threw = false;
    try { SP p(allocate_sparta_shared_pointer<Obj>(*s.a, 1)); } catch (const SpartaException&) { threw = true; }
    v_assert(threw && made_ == m && s.a->allocated_ == s.cap && s.a->memory_blocks_.size() == s.cap, "allocate.rejected-when-exhausted");
}
// an object whose constructor allocates from the same pool
struct Tree; static SpartaSharedPointerAllocator<Tree>* tal_;
struct Tree { SpartaSharedPointer<Tree> kid; uint64_t id; explicit Tree(uint64_t i) : id(i) { if (i) kid = allocate_sparta_shared_pointer<Tree>(*tal_, i - 1); } };
extern "C" void vh_alloc_nested() {
    SpartaSharedPointerAllocator<Tree> a(4, 4); tal_ = &a;
    {
        SpartaSharedPointer<Tree> t = allocate_sparta_shared_pointer<Tree>(a, 2);
        v_assert(t->id == 2 && t->kid->id == 1 && t->kid->kid->id == 0 && t.get() != t->kid.get() && t->kid.get() != t->kid->kid.get() && t.get() != t->kid->kid.get(), "allocate.nested-objects-have-their-own-storage");
        v_assert(a.getNumAllocated() == 3 && a.getNumFree() == 0 && a.hasOutstandingObjects(), "allocate.nested-accounting");
    }
    v_assert(a.getNumFree() == 3 && !a.hasOutstandingObjects(), "release.nested");
}

// Contract language understood by the deductive verifier (engine/vcgen.py).
// Contract files include the real headers / sources of the repository, and each
// `extern "C" void vh_<obligation>()` function states: requires (v_assume and
// symbolic pre-state), the call of the real function, ensures (v_assert).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t v_u64(const char*);            // arbitrary value
uint32_t v_u32(const char*);
uint16_t v_u16(const char*);
uint8_t  v_u8(const char*);
bool     v_bool(const char*);
double   v_f64(const char*);
void     v_assume(bool);                // requires
void     v_assert(bool, const char*);   // ensures: a named proof obligation
void     v_cover(const char*);          // the point must be reachable (vacuity guard)
uint64_t v_uf(const char*, uint64_t);               // uninterpreted specification function
uint64_t v_uf2(const char*, uint64_t, uint64_t);
uint64_t v_uf3(const char*, uint64_t, uint64_t, uint64_t);
void*    v_raw(const char*, uint64_t size);         // object with arbitrary contents
void*    v_array(const char*, uint64_t count, uint64_t stride); // count elements, arbitrary contents
void*    v_nodes(const char*, uint64_t count, uint64_t stride); // the same, every element a heap node of its own
// contents of the 8-byte (pointer) field at `off` of element i of array `arr` is fn(i, ctx)
void     v_elem_ptr(void* arr, uint64_t off, void* (*fn)(uint64_t, void*), void* ctx);
// the pointer field at `off` of every element of `arr` points to some element (any) of the array `dom`;
// stores into the field are checked to keep it so
void     v_elem_dom(void* arr, uint64_t off, void* dom);
// contents of the n-byte integer field at `off` of element i of array `arr` is fn(i, ctx)
void     v_elem_int(void* arr, uint64_t off, uint64_t n, uint64_t (*fn)(uint64_t, void*), void* ctx);
// loop-invariant candidate material (used only if proved inductive)
void     v_cand_val(uint64_t);                      // interesting bound
void     v_cand_index(uint64_t g, bool pred);       // "elements before / after the loop variable satisfy pred"
void     v_cand(bool);
// invariant candidate: fn(ctx, v) holds at the loop head (evaluated on the memory of that moment),
// for every integer / index loop variable v (pervar=1) or once with v=0 (pervar=0)
void     v_inv(bool (*fn)(void*, uint64_t), void* ctx, int pervar);
void     v_invp(bool (*fn)(void*, void*), void* ctx);   // the same for every pointer loop variable
void     v_invpi(bool (*fn)(void*, void*, uint64_t), void* ctx); // fn(ctx, p, i) for every pointer and every integer loop variable
void     v_invp2(bool (*fn)(void*, void*, void*), void* ctx);    // fn(ctx, a, b) for every ordered pair of pointer loop variables
// invariant candidate "for all signed j in [lo,hi): fn(ctx, v, j)" for every integer loop variable v:
// proved for an arbitrary j; usable for j = v, a and b
void     v_invq(bool (*fn)(void*, uint64_t v, uint64_t j), void* ctx, uint64_t lo, uint64_t hi, uint64_t a, uint64_t b);
// invariant candidate fn(ctx, a, b) for every ordered pair of distinct integer loop variables (zero-extended)
void     v_inv2(bool (*fn)(void*, uint64_t, uint64_t), void* ctx);
bool     v_same_obj(const void*, const void*);
void     v_note(const char*, uint64_t);             // value shown in counterexamples
bool     v_is_live(const void*);                    // object not freed
uint64_t v_fresh_objs();                            // heap objects allocated minus freed since entry
void     v_unreachable_ok();
}
template <class T> T* v_obj(const char* n) { return static_cast<T*>(v_raw(n, sizeof(T))); }
#define ENSURES(c, n) v_assert((c), n)
#define REQUIRES(c) v_assume((c))
#define VNOINLINE __attribute__((noinline))

// PROPERTY: P17
#include "verif.h"
#include "sparta/utils/ByteOrder.hpp"
#include "sparta/utils/Bits.hpp"
using namespace sparta;
template <class T> static void swp(uint64_t in) {
    T x = T(in);
    T y = byte_swap<T>(x);
    uint8_t i = v_u8("byte");
    v_assume(i < sizeof(T));
    const unsigned n = sizeof(T);
    typedef typename std::make_unsigned<T>::type U;
    v_assert(uint8_t(U(y) >> (8 * i)) == uint8_t(U(x) >> (8 * (n - 1 - i))), "byte_swap.reverses-the-bytes");
    v_assert(byte_swap<T>(y) == x, "byte_swap.is-its-own-inverse");
    v_assert((reorder<T, LE>(x)) == x && (reorder<T, BE>(x)) == y, "reorder.swaps-exactly-for-the-other-order");
}
extern "C" void vh_swap() {
    uint64_t x = v_u64("x");
    swp<uint8_t>(x); swp<int8_t>(x); swp<uint16_t>(x); swp<int16_t>(x); swp<uint32_t>(x); swp<int32_t>(x); swp<uint64_t>(x); swp<int64_t>(x);
}
// popcount by its recurrence: c(0) = 0, c(x) = c(x without its lowest bit) + 1
template <class T> static void pop() {
    T x = T(v_u64("x"));
    v_assert(utils::count_1_bits<T>(T(0)) == 0, "count.zero");
    if (x) v_assert(utils::count_1_bits<T>(x) == utils::count_1_bits<T>(x & (x - 1)) + 1, "count.every-bit-once");
}
extern "C" void vh_pop32() { pop<uint32_t>(); }
extern "C" void vh_pop64() { pop<uint64_t>(); }

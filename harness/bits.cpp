// Harness over the bit helpers of bithippop.hpp and the constexpr float bit extraction.
#include <stdint.h>
#include <cmath>
#include <cstring>
#include <type_traits>
#include "bithippop.hpp"
#include "floatconst2bits.hpp"
#ifdef WANT_BMI
#ifndef __BMI__
#error not the wanted path
#endif
#elif defined(__BMI__)
#error not the wanted path
#endif
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
template <class T> static inline uint64_t z(T x) { return (uint64_t)(typename std::make_unsigned<T>::type)x; }
#define PER(T, S) \
H(clz_##S) { out[0] = (uint64_t)findbitleftmostC((T)in[0]); } \
H(mask_##S) { out[0] = z(bitmask<T>((unsigned)in[0])); } \
H(get_##S) { out[0] = z((bitset_get<T>)((T)in[0], (int)in[1], (int)in[2])); } \
H(part_##S) { out[0] = z((bitset_part<T, T>)((T)in[0], (T)in[1], (int)in[2], (int)in[3])); } \
H(shr_##S) { out[0] = z(shift_right_full<T>((T)in[0], (long long)in[1])); } \
H(getT_##S) { T x = (T)in[0]; constexpr int W = sizeof(T) * 8; out[0] = z(bitset_getT(x, 0, 1)); out[1] = z(bitset_getT(x, W - 1, 1)); out[2] = z(bitset_getT(x, 2, 3)); out[3] = z(bitset_getT(x, 0, W)); out[4] = z(bitset_getT(x, W / 2 - 1, W / 2)); \
  out[5] = z(bitset_leftmost_getT(x, 3)); out[6] = z(bitset_leftmost_get_const<T, 0>()(x)); out[7] = z(bitset_leftmost_get_const<T, W / 2 + 1>()(x)); out[8] = z(bitset_leftmost_get_const<T, W>()(x)); } \
H(partT_##S) { T x = (T)in[0], y = (T)in[1]; constexpr int W = sizeof(T) * 8; out[0] = z((bitset_part<T, T, 0, 1>)(x, y)); out[1] = z((bitset_part<T, T, 2, 5>)(x, y)); out[2] = z((bitset_part<T, T, W - 3, 3>)(x, y)); out[3] = z((bitset_part<T, T, 0, W>)(x, y)); } \
H(msb_##S) { T x = (T)in[0]; constexpr int W = sizeof(T) * 8; out[0] = bitset_all(x).to_ullong(); out[1] = bitset_msb<T, 5>(x).to_ullong(); out[2] = bitset_lsb<T, 5>(x).to_ullong(); out[3] = bitset_msb<T, W>(x).to_ullong(); out[4] = bitset_lsb<T, W>(x).to_ullong(); }
PER(uint8_t, 8) PER(uint16_t, 16) PER(uint32_t, 32) PER(uint64_t, 64)
#define ABS(T, S) H(abs_##S) { T x = (T)in[0]; out[0] = z(pcabs<T>(x)); out[1] = z(pabs<T>(x)); }
ABS(int8_t, 8) ABS(int16_t, 16) ABS(int32_t, 32) ABS(int64_t, 64)
H(clz64) { out[0] = __builtin_clz64(in[0]); }
// value aligned to the left of one width to the left of another
#define CM(n, A, a, B, b) H(cm_##n) { out[0] = z(cast_msb<A, a, B, b>()((A)in[0])); }
CM(8_8_16_16, uint8_t, 8, uint16_t, 16) CM(16_16_8_8, uint16_t, 16, uint8_t, 8) CM(32_32_64_64, uint32_t, 32, uint64_t, 64) CM(64_64_32_32, uint64_t, 64, uint32_t, 32) CM(16_16_16_16, uint16_t, 16, uint16_t, 16) CM(8_8_64_64, uint8_t, 8, uint64_t, 64) CM(64_64_8_8, uint64_t, 64, uint8_t, 8)
#define RL(n, A, a, B, b) H(rl_##n) { out[0] = z(cast_right_to_left<A, a, B, b>()((A)in[0])); }
RL(32_23_64_64, uint32_t, 23, uint64_t, 64) RL(32_23_32_32, uint32_t, 23, uint32_t, 32) RL(32_23_16_16, uint32_t, 23, uint16_t, 16) RL(32_23_8_8, uint32_t, 23, uint8_t, 8) RL(64_52_64_64, uint64_t, 52, uint64_t, 64) RL(64_52_32_32, uint64_t, 52, uint32_t, 32) RL(64_52_8_8, uint64_t, 52, uint8_t, 8) RL(16_10_16_16, uint16_t, 10, uint16_t, 16) RL(16_10_8_8, uint16_t, 10, uint8_t, 8) RL(8_8_8_8, uint8_t, 8, uint8_t, 8)
#ifdef WANT_BMI
H(hw) { out[0] = z(bitset_gethw((uint16_t)in[0], (int)in[1], (int)in[2])); out[1] = z(bitset_gethw((uint32_t)in[0], (int)in[1], (int)in[2])); }
H(hwT) { out[0] = z(bitset_gethwT<2, 3>((uint8_t)in[0])); out[1] = z(bitset_gethwT<2, 3>((uint16_t)in[0])); out[2] = z(bitset_gethwT<2, 3>((uint32_t)in[0])); out[3] = z(bitset_gethwT<2, 3>((uint64_t)in[0])); out[4] = z(bitset_gethwT<7, 1>((uint8_t)in[0])); out[5] = z(bitset_gethwT<5, 11>((uint16_t)in[0])); out[6] = z(bitset_gethwT<23, 8>((uint32_t)in[0])); out[7] = z(bitset_gethwT<52, 11>((uint64_t)in[0])); }
#endif
H(f2b) { uint32_t i = (uint32_t)in[0]; float f; memcpy(&f, &i, 4); out[0] = float2bits(f); }
H(lz) { out[0] = (uint64_t)count_leading_zeroes(in[0]); }

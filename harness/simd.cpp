// Harness over simd_posit8_32: 32 posit8 in one register. The scalar answers are read from the same tables (property C17 is about their contents).
#include <stdint.h>
#include <cstring>
#include <cmath>
#include <array>
#include <iostream>
#include <iomanip>
#include "posit.h"
// the constructors report on std::cout: give them one that swallows everything
namespace std {
struct vp_null {
    template <class T> vp_null &operator<<(const T &) { return *this; }
    vp_null &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
    vp_null &operator<<(std::ios_base &(*)(std::ios_base &)) { return *this; }
};
static vp_null vp_out;
}
#define cout vp_out
#include SIMD_SRC
#undef cout
typedef simd_posit8_32 S;
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
static inline S ld(const uint64_t *p) { return S(_mm256_loadu_si256((const __m256i *)p)); }
static inline void st(uint64_t *p, __m256i v) { _mm256_storeu_si256((__m256i *)p, v); }
static inline uint8_t at(const uint64_t *p, int i) { return (uint8_t)(p[i >> 3] >> (8 * (i & 7))); }
template <class F> static inline void lanes(uint64_t *out, F f) { for (int k = 0; k < 4; k++) { uint64_t w = 0; for (int i = 7; i >= 0; i--) w = w << 8 | (uint8_t)f(8 * k + i); out[k] = w; } }
#define TAB2(n, e, T) H(n) { st(out, (e(ld(in), ld(in + 4))).uu()); lanes(out + 4, [in](int i) { return posit8ns::T[at(in, i) * 256 + at(in + 4, i)]; }); }
static inline S add(S a, S b) { return a + b; } static inline S mul(S a, S b) { return a * b; } static inline S div_(S a, S b) { return a / b; } static inline S sub(S a, S b) { return a - b; }
TAB2(s_add, add, opadd) TAB2(s_mul, mul, opmul) TAB2(s_div, div_, opdiv)
H(s_sub) { st(out, sub(ld(in), ld(in + 4)).uu()); lanes(out + 4, [in](int i) { return posit8ns::opadd[at(in, i) * 256 + (uint8_t)-at(in + 4, i)]; }); }
#define TAB1(n, e, T) H(n) { S a = ld(in); st(out, (e).uu()); lanes(out + 4, [in](int i) { return posit8ns::T[at(in, i)]; }); }
TAB1(s_inv, a.inv(), opinv) TAB1(s_inv2, inv(a), opinv) TAB1(s_exp2, a.exp2(), opexp2) TAB1(s_exp2b, exp2(a), opexp2) TAB1(s_square, a.square(), opsquare) TAB1(s_square2, square(a), opsquare)
H(s_neg) { st(out, (-ld(in)).uu()); st(out + 4, neg(ld(in)).uu()); }
H(s_half) { st(out, ld(in).half().uu()); lanes(out + 4, [in](int i) { return posit8ns::opdiv[at(in, i) * 256 + 0x60]; }); }
H(s_twice) { st(out, ld(in).twice().uu()); lanes(out + 4, [in](int i) { return posit8ns::opmul[at(in, i) * 256 + 0x60]; }); }
H(s_class) { S a = ld(in); st(out, a.is_negative()); st(out + 4, a.is_nan()); st(out + 8, a.is_infinity()); }
H(s_tof) { std::array<float, 32> r = (std::array<float, 32>)ld(in); for (int i = 0; i < 32; i++) { uint32_t b; memcpy(&b, &r[i], 4); out[i] = b; out[32 + i] = posit8ns::op2float[at(in, i)]; } }
H(s_fromi) { st(out, S((int)in[0]).uu()); }
H(s_fromf) { uint32_t i = (uint32_t)in[0]; float f; memcpy(&f, &i, 4); st(out, S(f).uu()); }

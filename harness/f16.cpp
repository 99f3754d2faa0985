// Harness over float16n32: half precision stored in 16 bits, computed in float (with or without the processor's conversions).
#include <stdint.h>
#include <cstring>
#include <cmath>
#include "float16native32.hpp"
#ifdef WANT_F16C
#ifndef __F16C__
#error not the wanted path
#endif
#elif defined(__F16C__)
#error not the wanted path
#endif
typedef float16n32 P;
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
static inline P mk(uint64_t x) { return P(false, (uint16_t)x); }
static inline uint64_t rv(P p) { return p.raw(); }
static inline float f32(uint64_t x) { uint32_t i = (uint32_t)x; float f; memcpy(&f, &i, 4); return f; }
static inline uint64_t b32(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
static inline uint64_t b64(double f) { uint64_t i; memcpy(&i, &f, 8); return i; }
H(n_fromf) { out[0] = rv(P(f32(in[0]))); out[1] = float32to16n(f32(in[0])).what; }
H(n_tof) { P a = mk(in[0]); out[0] = b32((float)a); out[1] = b64((double)a); out[2] = b32(float16nto32(a)); float16n_t h = a; out[3] = h.what; out[4] = rv(P(h)); }
H(n_rt) { P a = mk(in[0]); out[0] = rv(P((float)a)); }
H(n_const) { out[0] = rv(P()); out[1] = rv(P::zero()); out[2] = rv(P::one()); out[3] = rv(P::two()); }
H(n_neg) { P a = mk(in[0]); out[0] = rv(-a); out[1] = rv(a.neg()); }
H(n_abs) { P a = mk(in[0]); out[0] = rv(a.abs()); out[1] = rv(std::abs(a)); }
H(n_cmp) { P a = mk(in[0]), b = mk(in[1]); out[0] = a == b; out[1] = a < b; out[2] = a <= b; out[3] = a > b; out[4] = a >= b; }
H(n_add) { P a = mk(in[0]), b = mk(in[1]); P x = a; P &r = (x += b); out[0] = rv(a + b); out[1] = rv(x); out[2] = rv(r); }
H(n_mul) { P a = mk(in[0]), b = mk(in[1]); P x = a; P &r = (x *= b); out[0] = rv(a * b); out[1] = rv(x); out[2] = rv(r); }
H(n_sub) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a - b); }
H(n_div) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a / b); }
H(n_square) { out[0] = rv(square(mk(in[0]))); }
H(n_inv) { out[0] = rv(inv(mk(in[0]))); }
H(n_half) { out[0] = rv(half(mk(in[0]))); }
H(n_muladd) { P a = mk(in[0]), b = mk(in[1]), c = mk(in[2]); out[0] = rv(mulAdd(a, b, c)); }
H(n_sqrt) { out[0] = rv(sqrt(mk(in[0]))); }
H(n_rem) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(rem(a, b)); }

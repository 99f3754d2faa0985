// Harness over anyfloat_emu: floats of any size emulated through float or double.
#include <stdint.h>
#include <cstring>
#include <cmath>
#include "anyfloat.hpp"
typedef AF P;
typedef P::T HT;
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
static inline P mk(uint64_t x) { return P(P::DeepInit(), (HT)x); }
static inline uint64_t rv(P p) { return (uint64_t)p.v; }
static inline float f32(uint64_t x) { uint32_t i = (uint32_t)x; float f; memcpy(&f, &i, 4); return f; }
static inline double f64(uint64_t x) { double f; memcpy(&f, &x, 8); return f; }
static inline uint64_t b32(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
static inline uint64_t b64(double f) { uint64_t i; memcpy(&i, &f, 8); return i; }
#ifdef G_CONV
H(a_fromf) { out[0] = rv(P(f32(in[0]))); }
H(a_fromd) { out[0] = rv(P(f64(in[0]))); }
H(a_fromi) { out[0] = rv(P((int)in[0])); }
H(a_tof) { const P a = mk(in[0]); out[0] = b32((float)a); }
H(a_tod) { const P a = mk(in[0]); out[0] = b64((double)a); }
H(a_toffT) { P a = mk(in[0]); P::FFT f = a; out[0] = sizeof(f) == 4 ? b32((float)f) : b64((double)f); }
H(a_toi) { const P a = mk(in[0]); out[0] = (uint64_t)(int64_t)(int)a; }
H(a_rt) { const P a = mk(in[0]); out[0] = rv(P((P::FFT)a)); }
H(a_const) { out[0] = rv(P::zero()); out[1] = rv(P::one()); out[2] = rv(P::two()); out[3] = rv(P::inf()); out[4] = rv(P::ninf()); out[5] = rv(P::nan()); out[6] = rv(P::max()); out[7] = rv(P::lowest()); out[8] = rv(P::min()); out[9] = rv(P::pinf()); out[10] = rv(P::infinity()); out[11] = rv(P()); }
#endif
#ifdef G_UN
H(a_neg) { const P a = mk(in[0]); out[0] = rv(-a); out[1] = rv(a.neg()); }
H(a_abs) { const P a = mk(in[0]); out[0] = rv(a.abs()); out[1] = rv(std::abs(a)); }
H(a_cmp) { const P a = mk(in[0]), b = mk(in[1]); out[0] = a == b; out[1] = a != b; out[2] = a < b; out[3] = a <= b; out[4] = a > b; out[5] = a >= b; }
H(a_minmax) { const P a = mk(in[0]), b = mk(in[1]); out[0] = rv(std::min(a, b)); out[1] = rv(std::max(a, b)); }
H(a_inv) { const P a = mk(in[0]); out[0] = rv(a.inv()); out[1] = rv(~a); }
H(a_half) { const P a = mk(in[0]); out[0] = rv(a.half()); }
H(a_twice) { const P a = mk(in[0]); out[0] = rv(a.twice()); }
H(a_class) { const P a = mk(in[0]); out[0] = a.isnegative(); out[1] = a.hasNaN(); out[2] = a.iszero(); }
#endif
#ifdef G_BIN
H(a_add) { const P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a + b); }
H(a_sub) { const P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a - b); }
H(a_mul) { const P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a * b); }
H(a_div) { const P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a / b); }
H(a_addeq) { P a = mk(in[0]); const P b = mk(in[1]); P &r = (a += b); out[0] = rv(a); out[1] = rv(r); }
H(a_muleq) { P a = mk(in[0]); const P b = mk(in[1]); P &r = (a *= b); out[0] = rv(a); out[1] = rv(r); }
H(a_fma) { const P a = mk(in[0]), b = mk(in[1]), c = mk(in[2]); out[0] = rv(fma(a, b, c)); }
#endif

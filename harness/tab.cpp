// Harness over the tabulated posits (posit8, posit10, posit12): the tables themselves come from the generator of /repo, built and run by the check.
#include <stdint.h>
#include <cstring>
#include <limits>
#include TAB_HPP
#include TAB_SRC

typedef TAB_T P;
typedef P::value_t HT;
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
static inline P mk(uint64_t x) { return P(P::DeepInit(), (HT)(int64_t)x); }
static inline uint64_t rv(P p) { return (uint64_t)(int64_t)p.v; }
static inline float f32(uint64_t x) { uint32_t i = (uint32_t)x; float f; memcpy(&f, &i, 4); return f; }
static inline double f64(uint64_t x) { double f; memcpy(&f, &x, 8); return f; }
static inline uint64_t b32(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
static inline uint64_t b64(double f) { uint64_t i; memcpy(&i, &f, 8); return i; }

#ifdef G_BIN
H(t_add) { out[0] = rv(mk(in[0]) + mk(in[1])); }
H(t_mul) { out[0] = rv(mk(in[0]) * mk(in[1])); }
H(t_div) { out[0] = rv(mk(in[0]) / mk(in[1])); }
H(t_sub) { out[0] = rv(mk(in[0]) - mk(in[1])); }
H(t_addeq) { P a = mk(in[0]); P &r = (a += mk(in[1])); out[0] = rv(a); out[1] = rv(r); }
H(t_muleq) { P a = mk(in[0]); P &r = (a *= mk(in[1])); out[0] = rv(a); out[1] = rv(r); }
#endif
#ifdef G_BIN
H(t_rel) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a + b); out[1] = rv(a * b); P x = a; P &r = (x += b); out[2] = rv(x); out[3] = rv(r); P y = a; P &q = (y *= b); out[4] = rv(y); out[5] = rv(q); }
#endif
#ifdef G_UN
H(t_inv) { P a = mk(in[0]); out[0] = rv(a.inv()); out[1] = rv(inv(a)); }
H(t_half) { P a = mk(in[0]); out[0] = rv(a.half()); out[1] = rv(half(a)); }
H(t_twice) { P a = mk(in[0]); out[0] = rv(a.twice()); out[1] = rv(twice(a)); }
H(t_square) { P a = mk(in[0]); out[0] = rv(a.square()); out[1] = rv(square(a)); }
H(t_neg) { P a = mk(in[0]); out[0] = rv(-a); out[1] = rv(neg(a)); }
H(t_abs) { P a = mk(in[0]); out[0] = rv(std::abs(a)); }
H(t_cmp) { P a = mk(in[0]), b = mk(in[1]); out[0] = a == b; out[1] = a != b; out[2] = a < b; out[3] = a <= b; out[4] = a > b; out[5] = a >= b; }
H(t_minmax) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(std::min(a, b)); out[1] = rv(std::max(a, b)); }
H(t_exp2) { P a = mk(in[0]); out[0] = rv(a.exp2()); out[1] = rv(exp2(a)); }
#ifndef TAB_FLOAT
H(t_class) { P a = mk(in[0]); out[0] = a.is_nan(); out[1] = a.is_infinity(); out[2] = a.is_negative(); }
#else
H(t_class) { P a = mk(in[0]); out[0] = a.is_negative(); out[1] = is_negative(a); }
#endif
#endif
#ifdef G_CONV
#ifdef NO_TWO                           // posit12 has no such members
#define C_TWO (P::one() + P::one())
#define C_HALF P::onehalf()
#define C_ZERO P()
#else
#define C_ZERO P::zero()
#define C_TWO P::two()
#define C_HALF P::onehalf()
#endif
H(t_fromi) { out[0] = rv(P((int)in[0])); }
H(t_fromf) { out[0] = rv(P(f32(in[0]))); }
H(t_fromd) { out[0] = rv(P(f64(in[0]))); }
H(t_tof) { out[0] = b32((float)mk(in[0])); }
H(t_tod) { out[0] = b64((double)mk(in[0])); }
H(t_toi) { out[0] = (uint64_t)(int64_t)(int)mk(in[0]); }
H(t_rtf) { out[0] = rv(P((float)mk(in[0]))); out[1] = rv(P((double)mk(in[0]))); }
#ifndef TAB_FLOAT
H(t_posit) { P a = mk(in[0]); out[0] = (uint64_t)(int64_t)a.as_posit().v; P::FPT q = a; out[1] = (uint64_t)(int64_t)q.v; out[2] = rv(P(q)); out[3] = rv(P(a.unpack())); out[4] = rv(P(a.unpack_low())); }
H(t_unpack) { auto u = mk(in[0]).unpack(); out[0] = u.type; out[1] = u.negativeSign; out[2] = (uint64_t)(int64_t)u.exponent; out[3] = u.fraction; }
H(t_const) { out[0] = rv(C_ZERO); out[1] = rv(P::one()); out[2] = rv(C_TWO); out[3] = rv(C_HALF); out[4] = rv(P::max()); out[5] = rv(P::min()); out[6] = rv(P::nan()); out[7] = rv(P::afterone()); out[8] = rv(P());
  out[9] = rv(std::numeric_limits<P>::max()); out[10] = rv(std::numeric_limits<P>::min()); out[11] = rv(std::numeric_limits<P>::epsilon()); }
#else                                   // binary8tab
H(t_const) { out[0] = rv(P::zero()); out[1] = rv(P::one()); out[2] = rv(P::max()); out[3] = rv(P::min()); out[4] = rv(P::afterone()); out[5] = rv(P()); out[6] = rv(std::numeric_limits<P>::max()); out[7] = rv(std::numeric_limits<P>::min()); out[8] = rv(std::numeric_limits<P>::epsilon()); }
#endif
#endif

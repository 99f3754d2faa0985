// Harness over the public interface of Posit<>: every wrapper takes its inputs from in[] and leaves its results in out[],
// as sign extended 64 bit words. Compiled to LLVM IR for the solver and to a shared object for replaying.
#include <stdint.h>
#include <cstring>
#include <algorithm>
#include <limits>
#ifdef G_POSITMUL
#define POSITMUL
#endif
#include "posit.h"

#ifdef PFT                               // the variant that computes in float or double
#include "positf.h"
typedef PositF<HT, HN, HES, PFT, PositSpec::HSPEC> P;
typedef P::FT HFT;
#else
typedef Posit<HT, HN, HES, HFT, PositSpec::HSPEC> P;
#endif
typedef P::UnpackedT U;
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
static inline P mk(uint64_t x) { return P(P::DeepInit(), (HT)(int64_t)x); }
static inline uint64_t rv(P p) { return (uint64_t)(int64_t)p.v; }
static inline float f32(uint64_t x) { uint32_t i = (uint32_t)x; float f; memcpy(&f, &i, 4); return f; }
static inline double f64(uint64_t x) { double f; memcpy(&f, &x, 8); return f; }
static inline uint64_t b32(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
static inline uint64_t b64(double f) { uint64_t i; memcpy(&i, &f, 8); return i; }
static inline void ru(U u, uint64_t *out) { out[0] = u.type; out[1] = u.negativeSign; out[2] = (uint64_t)(int64_t)u.exponent; out[3] = u.fraction; }
// type, sign, exponent, fraction; type is 0..3 by the caller
static inline U mku(const uint64_t *in) { U u; u.type = (U::Type)(in[0] & 3); u.negativeSign = in[1] & 1; u.exponent = (P::exponenttype)(int64_t)in[2]; u.fraction = (HFT)in[3]; return u; }

#ifdef G_DEC
H(h_unpack) { ru(mk(in[0]).unpack(), out); }
H(h_low) { auto u = mk(in[0]).unpack_low(); out[0] = u.type; out[1] = u.negativeSign; out[2] = (uint64_t)(int64_t)u.regime; out[3] = u.exp; out[4] = u.fraction; }
H(h_class) { P a = mk(in[0]); out[0] = a.isNaN(); out[1] = a.isinfinity(); out[2] = a.iszero(); out[3] = a.isnegative(); out[4] = a.isone(); out[5] = a.hasNaN(); }
H(h_convop) { U u = mk(in[0]); ru(u, out); }
#endif
#ifdef G_RT
H(h_rtu) { out[0] = rv(P(mk(in[0]).unpack())); }
H(h_rtlow) { out[0] = rv(P(mk(in[0]).unpack_low())); out[1] = rv(P::pack_low(mk(in[0]).unpack_low())); }
H(h_rtf) { out[0] = rv(P((float)mk(in[0]))); }
H(h_rtd) { out[0] = rv(P((double)mk(in[0]))); }
#ifndef PFT
H(h_rtbin) { out[0] = rv(P(P::single_tag(), mk(in[0]).as_float_bin())); }
#endif
H(h_packu) { out[0] = rv(P(mku(in))); }
H(h_lowfull) { U u = P::unpacked_low2full(mk(in[0]).unpack_low()); ru(u, out); out[4] = rv(P::pack_low(P::unpacked_full2low(u))); }
#endif
#ifdef G_FROMF
H(h_fromf) { out[0] = rv(P(f32(in[0]))); }
H(h_fromd) { out[0] = rv(P(f64(in[0]))); }
#ifndef PFT
H(h_frombin) { out[0] = rv(P(P::single_tag(), (uint32_t)in[0])); }
#endif
#endif
#ifdef G_INT
H(h_fromi) { out[0] = rv(P((int)in[0])); }
H(h_toi) { out[0] = (uint64_t)(int64_t)(int)mk(in[0]); }
#endif
#ifdef G_TOF
#ifndef PFT
H(h_tof) { out[0] = b32((float)mk(in[0])); out[1] = mk(in[0]).as_float_bin(); }
#else
H(h_tof) { out[0] = b32((float)mk(in[0])); out[1] = out[0]; }
#endif
H(h_tod) { out[0] = b64((double)mk(in[0])); }
#endif
#ifdef G_NEG
H(h_neg) { P a = mk(in[0]); out[0] = rv(-a); out[1] = rv(a.neg()); out[2] = rv(neg(a)); }
H(h_abs) { P a = mk(in[0]); out[0] = rv(a.abs()); out[1] = rv(std::abs(a)); }
#endif
#ifdef G_CMP
H(h_cmp) { P a = mk(in[0]), b = mk(in[1]); out[0] = a == b; out[1] = a != b; out[2] = a < b; out[3] = a <= b; out[4] = a > b; out[5] = a >= b; }
H(h_minmax) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(std::min(a, b)); out[1] = rv(std::max(a, b)); }
H(h_step) { P a = mk(in[0]); out[0] = rv(a.next()); out[1] = rv(a.prev()); }
#endif
#ifdef G_ADD
H(h_add) { out[0] = rv(mk(in[0]) + mk(in[1])); }
H(h_sub) { out[0] = rv(mk(in[0]) - mk(in[1])); }
H(h_addeq) { P a = mk(in[0]); a += mk(in[1]); out[0] = rv(a); out[1] = rv(mk(in[0]) + mk(in[1])); }
H(h_subdef) { P a = mk(in[0]), b = mk(in[1]); HT m = b.v == (HT)(~(uint64_t)0 << (HN - 1)) ? b.v : (HT)-b.v; out[0] = rv(a - b); out[1] = rv(a + P(P::DeepInit(), m)); }
H(h_addcom) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a + b); out[1] = rv(b + a); out[2] = rv(a - a); out[3] = rv(a - b); out[4] = rv(b - a); }
#endif
#ifdef G_MUL
H(h_mul) { P r = mk(in[0]) * mk(in[1]); out[0] = rv(r); }
H(h_muleq) { P a = mk(in[0]); a *= mk(in[1]); out[0] = rv(a); }
H(h_mulone) { P a = mk(in[0]); P x = a * P::one(), y = a * P::mone(), z = a * P::zero(); out[0] = rv(x); out[1] = rv(y); out[2] = rv(z); }
#endif
#ifdef G_DIV
H(h_div) { out[0] = rv(mk(in[0]) / mk(in[1])); }
H(h_diveq) { P a = mk(in[0]); a /= mk(in[1]); out[0] = rv(a); }
H(h_divone) { P a = mk(in[0]); out[0] = rv(a / P::one()); out[1] = rv(a / P::mone()); out[2] = rv(P::zero() / a); }
#endif
#ifdef G_INV
H(h_inv) { P a = mk(in[0]); out[0] = rv(a.inv()); }
H(h_inv2) { P a = mk(in[0]); out[0] = rv(~a); out[1] = rv(inv(a)); out[2] = rv(a.inv()); }
H(h_half) { out[0] = rv(mk(in[0]).half()); }
H(h_twice) { out[0] = rv(mk(in[0]).twice()); }
#endif
#ifdef G_FMA
H(h_fma) { out[0] = rv(fma(mk(in[0]), mk(in[1]), mk(in[2]))); }
H(h_dot0) { P a[1] = {mk(in[0])}; out[0] = rv(P::dot(a, a, 0)); out[1] = rv(P::dot(a, a, -1)); }
// an input range that may be read once per element, front to back, and no further
struct It { const P *b; int i, n; P operator*() const { if (i < 0 || i >= n) __builtin_trap(); return b[i]; } It operator++(int) { It r = *this; ++*this; return r; } It &operator++() { if (i >= n) __builtin_trap(); i++; return *this; } };
H(h_dotit) { P a[3] = {mk(in[0]), mk(in[1]), mk(in[2])}; int n = (int)(in[3] & 3); const int m = n == 3 ? -1 : n; It x{a, 0, n == 3 ? 0 : n}, y{a + 1, 0, n == 3 ? 0 : n}; P r = P::dot(x, y, m); out[0] = rv(r); out[1] = rv(P::dot(a, a + 1, m)); }
H(h_dot1) { P a[1] = {mk(in[0])}, b[1] = {mk(in[1])}; out[0] = rv(P::dot(a, b, 1)); }
H(h_dot2) { P a[2] = {mk(in[0]), mk(in[2])}, b[2] = {mk(in[1]), mk(in[3])}; out[0] = rv(P::dot(a, b, 2)); }
H(h_dot2f) { P a[2] = {mk(in[0]), P::one()}, b[2] = {mk(in[1]), mk(in[2])}; out[0] = rv(P::dot(a, b, 2)); }
H(h_dot3) { P a[3] = {mk(in[0]), mk(in[2]), mk(in[4])}, b[3] = {mk(in[1]), mk(in[3]), mk(in[5])}; out[0] = rv(P::dot(a, b, 3));
  U s = a[0].unpack() * b[0].unpack(); s = s + a[1].unpack() * b[1].unpack(); s = s + a[2].unpack() * b[2].unpack(); out[1] = rv(P(s)); }
#endif
#ifdef G_POSITMUL
H(h_pm_mul) { P r = mk(in[0]) * mk(in[1]); out[0] = rv(r); }
H(h_pm_fma) { P r = mk(in[0]) * mk(in[1]) + mk(in[2]); P q = mk(in[2]) + mk(in[0]) * mk(in[1]); out[0] = rv(r); out[1] = rv(q); }
H(h_pm_dot) { P r = mk(in[0]) * mk(in[1]) + mk(in[2]) * mk(in[3]); out[0] = rv(r); }
H(h_pm_dots) { P r = mk(in[0]) * mk(in[1]) - mk(in[2]) * mk(in[3]); out[0] = rv(r); }
#endif
#ifdef G_CONST
H(h_const) {
  out[0] = rv(P::zero()); out[1] = rv(P::one()); out[2] = rv(P::mone()); out[3] = rv(P::two()); out[4] = rv(P::onehalf()); out[5] = rv(P::max());
  out[6] = rv(P::min()); out[7] = rv(P::lowest()); out[8] = rv(P::nan()); out[9] = rv(P::inf()); out[10] = rv(P::pinf()); out[11] = rv(P::ninf()); out[12] = rv(P::infinity());
#ifndef PFT                              // PositF() is left uninitialised
  out[13] = rv(P());
#else
  out[13] = 0;
#endif
}
H(h_limits) {
  typedef std::numeric_limits<P> L;
  out[0] = rv(L::min()); out[1] = rv(L::max()); out[2] = rv(L::lowest()); out[3] = rv(L::epsilon()); out[4] = (uint64_t)(int64_t)(int)L::min_exponent; out[5] = (uint64_t)(int64_t)(int)L::max_exponent;
  out[6] = L::has_infinity; out[7] = L::has_quiet_NaN; out[8] = rv(L::infinity()); out[9] = rv(L::quiet_NaN()); out[10] = rv(L::denorm_min()); out[11] = L::is_signed; out[12] = L::is_integer;
  out[13] = L::is_exact; out[14] = L::radix; out[15] = L::is_specialized;
}
H(h_constself) {
  P a = mk(in[0]);
  out[0] = P::max() < a; out[1] = a < P::lowest(); out[2] = P::zero() < a && a < P::min(); out[3] = rv(P::one() + P::one()); out[4] = rv(P::two() * P::onehalf());
}
#endif
#ifdef G_UNIT
H(h_sig) { out[0] = rv(mk(in[0]).pseudosigmoid()); }
H(h_softp) { out[0] = rv(mk(in[0]).pseudosoftplus()); }
H(h_unit) { P a = mk(in[0]); out[0] = a.isUnitRange(); }
H(h_urom) { P a = mk(in[0]); out[0] = rv(a.urOneMinus()); }
H(h_urdelta) { P a = mk(in[0]); P r = a.urDeltaPs(); P q = a * (a.urOneMinus()); out[0] = rv(r); out[1] = rv(q); }
#endif
#ifdef G_ANALYZE
H(h_analyze) {
  auto i = mk(in[0]).analyze();
  out[0] = i.infinity; out[1] = i.nan; out[2] = (uint64_t)(int64_t)i.k; out[3] = i.sign; out[4] = (uint64_t)(int64_t)i.rs; out[5] = (uint64_t)(int64_t)i.es; out[6] = (uint64_t)(int64_t)i.fs;
  out[7] = (uint64_t)(int64_t)i.exp; out[8] = (uint64_t)(int64_t)i.exponent; out[9] = i.ifraction;
}
#endif
#ifdef G_SHAPE
// sizes that the solver side assumes
H(h_shape) { out[0] = sizeof(P::exponenttype) * 8; out[1] = sizeof(HFT) * 8; out[2] = sizeof(P); }
#endif
#ifdef G_LAWS
H(l_addcom) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a + b); out[1] = rv(b + a); }
H(l_mulcom) { P a = mk(in[0]), b = mk(in[1]); P x = a * b, y = b * a; out[0] = rv(x); out[1] = rv(y); }
H(l_subadd) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a - b); out[1] = rv(a + (-b)); }
H(l_addneg) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv((-a) + (-b)); out[1] = rv(-(a + b)); }
H(l_mulneg) { P a = mk(in[0]), b = mk(in[1]); P x = -(a * b), y = (-a) * b, z = a * (-b); out[0] = rv(y); out[1] = rv(x); out[2] = rv(z); out[3] = rv(x); }
H(l_divneg) { P a = mk(in[0]), b = mk(in[1]); P x = -(a / b), y = (-a) / b, z = a / (-b); out[0] = rv(y); out[1] = rv(x); out[2] = rv(z); out[3] = rv(x); }
H(l_self) { P a = mk(in[0]); out[0] = rv(a - a); out[1] = rv(a / a); }
H(l_negneg) { P a = mk(in[0]); out[0] = rv(-(-a)); out[1] = rv(a); out[2] = rv((-a).abs()); out[3] = rv(a.abs()); out[4] = rv((-a).inv()); out[5] = rv(-a.inv()); }
#endif
#ifdef G_PF
H(p_mul) { P a = mk(in[0]), b = mk(in[1]); P x = a; P &r = (x *= b); out[0] = rv(a * b); out[1] = rv(x); out[2] = rv(r); }
H(p_add) { P a = mk(in[0]), b = mk(in[1]); P x = a; P &r = (x += b); out[0] = rv(a + b); out[1] = rv(x); out[2] = rv(r); }
H(p_sub) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a - b); }
H(p_div) { P a = mk(in[0]), b = mk(in[1]); out[0] = rv(a / b); }
H(p_inv) { P a = mk(in[0]); out[0] = rv(a.inv()); out[1] = rv(~a); out[2] = rv(inv(a)); }
H(p_half) { P a = mk(in[0]); out[0] = rv(a.half()); }
H(p_twice) { P a = mk(in[0]); out[0] = rv(a.twice()); }
H(p_fma) { P a = mk(in[0]), b = mk(in[1]), c = mk(in[2]); out[0] = rv(fma(a, b, c)); }
H(p_pack) { P a = mk(in[0]); U u = P::unpack_posit(a); ru(u, out); out[4] = rv(P::pack_posit(u)); }
#endif

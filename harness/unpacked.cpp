// Harness over Unpacked<FT,ET>: (type, sign, exponent, fraction) in four words.
#include <stdint.h>
#include <cstring>
#include "unpacked.h"
typedef Unpacked<HFT, HET> U;
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
static inline U mku(const uint64_t *in) { U u; u.type = (U::Type)(in[0] & 3); u.negativeSign = in[1] & 1; u.exponent = (HET)(int64_t)in[2]; u.fraction = (HFT)in[3]; return u; }
static inline void ru(U u, uint64_t *out) { out[0] = u.type; out[1] = u.negativeSign; out[2] = (uint64_t)(int64_t)u.exponent; out[3] = u.fraction; }
#ifdef G_ARITH
H(u_add) { ru(mku(in) + mku(in + 4), out); }
H(u_addeq) { U a = mku(in); a += mku(in + 4); ru(a, out); ru(mku(in) + mku(in + 4), out + 4); }
H(u_sub) { ru(mku(in) - mku(in + 4), out); U c = mku(in); c -= mku(in + 4); ru(c, out + 4); }
H(u_mul) { ru(mku(in) * mku(in + 4), out); }
H(u_div) { ru(mku(in) / mku(in + 4), out); }
H(u_inv) { ru(mku(in).inv(), out); }
H(u_neg) { ru(-mku(in), out); }
H(u_norm) { ru(mku(in).normalized(), out); }
H(u_eq) { U a = mku(in), b = mku(in + 4); out[0] = a == b; out[1] = a != b; }
H(u_class) { U a = mku(in); out[0] = a.isInfinity(); out[1] = a.isRegular(); out[2] = a.isNaN(); out[3] = a.isZero(); out[4] = a.isPositive(); }
H(u_const) { ru(U::infinity(), out); ru(U::pinfinity(), out + 4); ru(U::ninfinity(), out + 8); ru(U::nan(), out + 12); ru(U::one(), out + 16); ru(U::zero(), out + 20); ru(U(), out + 24); }
#endif
#ifdef G_FLOAT
static inline float f32(uint64_t x) { uint32_t i = (uint32_t)x; float f; memcpy(&f, &i, 4); return f; }
static inline double f64(uint64_t x) { double f; memcpy(&f, &x, 8); return f; }
static inline uint64_t b32(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
static inline uint64_t b64(double f) { uint64_t i; memcpy(&i, &f, 8); return i; }
H(u_ff) { ru(U(f32(in[0])), out); ru(U(typename U::single_tag(), (uint32_t)in[0]), out + 4); U u; u.unpack_float(f32(in[0])); ru(u, out + 8); ru(U::make_floati<single_trait>((uint32_t)in[0]), out + 12); ru(U::make_float<single_trait>(f32(in[0])), out + 16); }
H(u_fd) { ru(U(f64(in[0])), out); U u; u.unpack_double(f64(in[0])); ru(u, out + 4); ru(U::make_floati<double_trait>(in[0]), out + 8); ru(U::make_float<double_trait>(f64(in[0])), out + 12); }
H(u_fh) { U u; u.unpack_xfloati<half_trait>((uint16_t)in[0]); ru(u, out); ru(U::make_floati<half_trait>((uint16_t)in[0]), out + 4); }
H(u_f8) { U u; u.unpack_xfloati<microfloat_trait>((uint8_t)in[0]); ru(u, out); }
H(u_tf) { out[0] = b32((float)mku(in)); out[1] = mku(in).pack_xfloati<single_trait>(); out[2] = b32(mku(in).pack_float<float>()); }
H(u_td) { out[0] = b64((double)mku(in)); out[1] = mku(in).pack_xfloati<double_trait>(); out[2] = b64(mku(in).pack_float<double>()); }
H(u_th) { out[0] = mku(in).pack_xfloati<half_trait>(); }
H(u_t8) { out[0] = mku(in).pack_xfloati<microfloat_trait>(); }
H(u_rtf) { out[0] = b32((float)U(f32(in[0]))); }
H(u_rtd) { out[0] = b64((double)U(f64(in[0]))); }
#endif
#ifdef G_FIXED
#ifndef FXT
#define FXT int
#define FXB 32
#define FXF 0
#endif
typedef fixedtrait<FXT, FXB, FXF> FX;
H(u_fromfx) { ru(U::make_fixed<FX>((FXT)in[0]), out); U u; u.unpack_xfixed<FX>((FXT)in[0]); ru(u, out + 4); }
H(u_tofx) { out[0] = (uint64_t)(int64_t)mku(in).pack_xfixed<FX>(); }
H(u_rtfx) { out[0] = (uint64_t)(int64_t)U::make_fixed<FX>((FXT)in[0]).pack_xfixed<FX>(); }
H(u_fromint) { ru(U((int)in[0]), out); U u; u.unpack_int((int)in[0]); ru(u, out + 4); }
H(u_toint) { out[0] = (uint64_t)(int64_t)(int)mku(in); }
#endif

// Harness over the 128 bit integer the library brings for compilers that have none (typehelpers.hpp); compiled with -U__SIZEOF_INT128__.
#include <stdint.h>
#include <cstring>
#include "posit.h"
static_assert(std::is_class<unsigned128>::value, "not the emulated integer");
static_assert(std::is_same<nextinttype<uint64_t>::type, unsigned128>::value && std::is_same<int_least_bits<128>::unsigned_type, unsigned128>::value, "not the integer used for fractions");
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
typedef unsigned128 U;
static inline void st(uint64_t *o, U x) { o[0] = x.lo; o[1] = x.hi; }
#define AB U a(in[1], in[0]), b(in[3], in[2])
H(u_add) { AB; st(out, a + b); }
H(u_sub) { AB; st(out, a - b); }
H(u_lt) { AB; out[0] = a < b; }
H(u_shl) { U a(in[1], in[0]); st(out, a << (int)in[2]); }
H(u_shr) { U a(in[1], in[0]); st(out, a >> (int)in[2]); }
H(u_lo) { U a(in[1], in[0]); out[0] = (uint64_t)a; U b(in[0]); st(out + 1, b); }
H(u_clz) { U a(in[1], in[0]); out[0] = (uint64_t)(int64_t)findbitleftmostC(a); }
H(u_mul) { st(out, nextintop<uint64_t>::extramul(in[0], in[1])); }
H(u_div) { st(out, nextintop<uint64_t>::extradiv(U(in[1], in[0]), in[2])); }
typedef Unpacked<uint64_t, int32_t> V;
static inline void sv(uint64_t *o, const V &r) { o[0] = (uint64_t)r.type; o[1] = r.negativeSign; o[2] = (uint64_t)(int64_t)r.exponent; o[3] = r.fraction; }
H(v_mul) { V r = V(0, in[0], in[2] & 1) * V(0, in[1], in[2] >> 1 & 1); sv(out, r); st(out + 4, nextintop<uint64_t>::extramul((uint64_t)1 << 63 | in[0] >> 1, (uint64_t)1 << 63 | in[1] >> 1)); }
H(v_div) { V r = V(0, in[0], in[2] & 1) / V(0, in[1], in[2] >> 1 & 1); sv(out, r); uint64_t a = (uint64_t)1 << 63 | in[0] >> 1, b = (uint64_t)1 << 63 | in[1] >> 1; if (a < b) b >>= 1; st(out + 4, nextintop<uint64_t>::extradiv(U(a, 0), b)); }

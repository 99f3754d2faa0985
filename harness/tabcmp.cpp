// The tables in the tree against those the generators produce now, entry by entry.
#include <stdint.h>
#define H(n) extern "C" void n(const uint64_t *in, uint64_t *out)
#define PAIR(T, N) namespace TAB_NS { extern T N[]; } namespace TAB_COM { extern T N[]; } H(c_##N) { out[0] = (uint64_t)(int64_t)TAB_NS::N[in[0]]; out[1] = (uint64_t)(int64_t)TAB_COM::N[in[0]]; }
TAB_PAIRS

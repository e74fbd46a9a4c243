#ifndef VACL_INTERNAL_BIT
#define VACL_INTERNAL_BIT 1
namespace atcoder { namespace internal {
inline int ceil_pow2(int n) { int x = 0; while ((1U << x) < (unsigned int)(n)) x++; return x; }
inline unsigned int bit_ceil(unsigned int n) { unsigned int x = 1; while (x < n) x *= 2; return x; }
constexpr int bsf_constexpr(unsigned int n) { int x = 0; while (!(n & (1U << x))) x++; return x; }
inline int bsf(unsigned int n) { return __builtin_ctz(n); }
inline int countr_zero(unsigned int n) { return __builtin_ctz(n); }
} }
#endif

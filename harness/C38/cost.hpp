// Cost accounting: the harness is compiled with -fsanitize-coverage=trace-pc, so every
// basic block executed (library, standard templates) adds one to pbt_cost; allocation
// adds its size and block copies their length.  Counts are deterministic: no clock.
// The oracle is growth only: cost(N) / cost(n) <= slack * f(N) / f(n).
#pragma once
#include "large.hpp"
#include <cstdlib>
#include <new>
extern "C" { unsigned long long pbt_cost = 0; }
asm(".text\n.globl __sanitizer_cov_trace_pc\n.type __sanitizer_cov_trace_pc,@function\n__sanitizer_cov_trace_pc:\n incq pbt_cost(%rip)\n ret\n");
#if !defined(__SANITIZE_ADDRESS__)
extern "C" {
void* memmove(void* d, const void* s, size_t n) {
    char* a = (char*)d; const char* b = (const char*)s; pbt_cost += n / 16;
    if (a == b || !n) return d;
    if (a < b || a >= b + n) { asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n)::"memory"); }
    else { size_t k = n; while (k >= 8) { k -= 8; unsigned long long t; asm volatile("movq (%1), %0\n movq %0, (%2)" : "=&r"(t) : "r"(b + k), "r"(a + k) : "memory"); } while (k--) { char t; asm volatile("movb (%1), %0\n movb %0, (%2)" : "=&q"(t) : "r"(b + k), "r"(a + k) : "memory"); } }
    return d;
}
void* memcpy(void* d, const void* s, size_t n) { void* r = d; pbt_cost += n / 16; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r; }
void* memset(void* d, int c, size_t n) { void* r = d; pbt_cost += n / 16; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
}
void* operator new(size_t n) { pbt_cost += n / 16; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif
namespace hv {
template <class F> double cost(F&& f) { u64 c = pbt_cost; f(); return double(pbt_cost - c); }
struct Keep { template <class T> const Keep& operator<<(const T& x) const { asm volatile("" : : "r"(&x) : "memory"); return *this; } };
static const Keep K;
// bounds
inline double o_log2(double n) { return std::log2(n) * std::log2(n); }
inline double o_1(double) { return 1; }
inline double o_log(double n) { return std::log2(n); }
inline double o_n(double n) { return n; }
inline double o_nlog(double n) { return n * std::log2(n); }
inline double o_nlog2(double n) { return n * std::log2(n) * std::log2(n); }
inline double o_nsqrt(double n) { return n * std::sqrt(n); }
inline double o_sqrt(double n) { return std::sqrt(n); }
inline double o_n2(double n) { return n * n; }
inline double o_n3(double n) { return n * n * n; }
// run(n, b) returns the metered cost of a workload of size n; b is the same stream at both sizes
template <class F> void grows(Gen& g, const std::string& what, double (*f)(double), int n, int N, F&& run, double slack = 2) {
    u64 s = g.raw(0); g.nontrivial(); g.label(what);
    auto at = [&](int k) { Bulk b(g); b.s = s; return std::max(1.0, run(k, b)); };
    double c = at(n), C = at(N), r = C / c, lim = slack * f(N) / f(n);
    if (const char* p = getenv("PBT_COST_LOG")) { FILE* F_ = fopen(p, "a"); fprintf(F_, "%-40s n %d %.0f (%.1f each) N %d %.0f (%.1f each) ratio %.2f bound %.2f use %.2f\n", what.c_str(), n, c, c / n, N, C, C / N, r, lim, r / lim * slack); fclose(F_); }
    CKM(r <= lim, what + ": cost " + std::to_string(c) + " at size " + std::to_string(n) + " became " + std::to_string(C) + " at size " + std::to_string(N) + ", a factor of " + std::to_string(r) + " where the bound allows " + std::to_string(lim));
}
} // namespace hv

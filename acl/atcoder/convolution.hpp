#ifndef VACL_CONVOLUTION
#define VACL_CONVOLUTION 1
#include <algorithm>
#include <array>
#include <cassert>
#include <type_traits>
#include <vector>
#include "internal_bit.hpp"
#include "modint.hpp"
namespace atcoder {
namespace internal {
// decimation in frequency, bit-reversed output order
template <class mint, internal::is_static_modint_t<mint>* = nullptr> struct vacl_roots {
    mint sum_e[30], sum_ie[30];
    vacl_roots() {
        constexpr int cnt2 = bsf_constexpr(mint::mod() - 1);
        mint es[30], ies[30];
        mint e = mint(primitive_root<mint::mod()>).pow((mint::mod() - 1) >> cnt2), ie = e.inv();
        for (int i = cnt2; i >= 2; i--) { es[i - 2] = e; ies[i - 2] = ie; e *= e; ie *= ie; }
        mint now = 1, inow = 1;
        for (int i = 0; i <= cnt2 - 2; i++) { sum_e[i] = es[i] * now; now *= ies[i]; sum_ie[i] = ies[i] * inow; inow *= es[i]; }
    }
    static const vacl_roots& get() { static const vacl_roots r; return r; }
};
template <class mint, internal::is_static_modint_t<mint>* = nullptr> void butterfly(std::vector<mint>& a) {
    int n = int(a.size()), h = internal::ceil_pow2(n);
    const auto& R = vacl_roots<mint>::get();
    for (int ph = 1; ph <= h; ph++) {
        int w = 1 << (ph - 1), p = 1 << (h - ph);
        mint now = 1;
        for (int s = 0; s < w; s++) {
            int off = s << (h - ph + 1);
            for (int i = 0; i < p; i++) { auto l = a[i + off]; auto r = a[i + off + p] * now; a[i + off] = l + r; a[i + off + p] = l - r; }
            now *= R.sum_e[bsf(~(unsigned int)(s))];
        }
    }
}
template <class mint, internal::is_static_modint_t<mint>* = nullptr> void butterfly_inv(std::vector<mint>& a) {
    int n = int(a.size()), h = internal::ceil_pow2(n);
    const auto& R = vacl_roots<mint>::get();
    for (int ph = h; ph >= 1; ph--) {
        int w = 1 << (ph - 1), p = 1 << (h - ph);
        mint inow = 1;
        for (int s = 0; s < w; s++) {
            int off = s << (h - ph + 1);
            for (int i = 0; i < p; i++) { auto l = a[i + off]; auto r = a[i + off + p]; a[i + off] = l + r; a[i + off + p] = (l - r) * inow; }
            inow *= R.sum_ie[bsf(~(unsigned int)(s))];
        }
    }
}
template <class mint, internal::is_static_modint_t<mint>* = nullptr> std::vector<mint> convolution_naive(const std::vector<mint>& a, const std::vector<mint>& b) {
    std::vector<mint> r(a.size() + b.size() - 1);
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
    return r;
}
}
template <class mint, internal::is_static_modint_t<mint>* = nullptr> std::vector<mint> convolution(std::vector<mint> a, std::vector<mint> b) {
    int n = int(a.size()), m = int(b.size());
    if (!n || !m) return {};
    if (std::min(n, m) <= 60) return internal::convolution_naive(a, b);
    int z = (int)internal::bit_ceil((unsigned int)(n + m - 1));
    assert((mint::mod() - 1) % z == 0);
    if (std::max(n, m) / std::min(n, m) >= 64) { // very unbalanced: same result, blockwise
        if (n < m) std::swap(a, b), std::swap(n, m);
        int len = 4 * (int)internal::bit_ceil((unsigned int)m), step = len - m + 1; mint iz = mint(len).inv();
        std::vector<mint> r(n + m - 1); b.resize(len); internal::butterfly(b); for (auto& x : b) x *= iz;
        for (int o = 0; o < n; o += step) {
            std::vector<mint> c(a.begin() + o, a.begin() + std::min(n, o + step)); c.resize(len); internal::butterfly(c);
            for (int i = 0; i < len; i++) c[i] *= b[i];
            internal::butterfly_inv(c);
            for (int i = 0, e = std::min(len, n + m - 1 - o); i < e; i++) r[o + i] += c[i];
        }
        return r;
    }
    a.resize(z); internal::butterfly(a); b.resize(z); internal::butterfly(b);
    for (int i = 0; i < z; i++) a[i] *= b[i];
    internal::butterfly_inv(a); a.resize(n + m - 1);
    mint iz = mint(z).inv();
    for (auto& x : a) x *= iz;
    return a;
}
template <unsigned int mod = 998244353, class T, std::enable_if_t<internal::is_integral<T>::value>* = nullptr> std::vector<T> convolution(const std::vector<T>& a, const std::vector<T>& b) {
    int n = int(a.size()), m = int(b.size());
    if (!n || !m) return {};
    using mint = static_modint<mod>;
    std::vector<mint> a2(n), b2(m);
    for (int i = 0; i < n; i++) a2[i] = mint(a[i]);
    for (int i = 0; i < m; i++) b2[i] = mint(b[i]);
    auto c2 = convolution(std::move(a2), std::move(b2));
    std::vector<T> c(n + m - 1);
    for (int i = 0; i < n + m - 1; i++) c[i] = c2[i].val();
    return c;
}
}
#endif

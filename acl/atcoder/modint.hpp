#ifndef VACL_MODINT
#define VACL_MODINT 1
#include <cassert>
#include <numeric>
#include <type_traits>
#include "internal_math.hpp"
#include "internal_type_traits.hpp"
namespace atcoder {
namespace internal {
struct modint_base {};
struct static_modint_base : modint_base {};
template <class T> using is_modint = std::is_base_of<modint_base, T>;
template <class T> using is_modint_t = std::enable_if_t<is_modint<T>::value>;
}
#define VACL_MODINT_OPS(mint) \
    mint& operator++() { _v++; if (_v == umod()) _v = 0; return *this; } \
    mint& operator--() { if (_v == 0) _v = umod(); _v--; return *this; } \
    mint operator++(int) { mint r = *this; ++*this; return r; } \
    mint operator--(int) { mint r = *this; --*this; return r; } \
    mint& operator+=(const mint& r) { unsigned long long s = (unsigned long long)_v + r._v; _v = (unsigned)(s >= umod() ? s - umod() : s); return *this; } \
    mint& operator-=(const mint& r) { _v = _v >= r._v ? _v - r._v : (unsigned)((unsigned long long)_v + umod() - r._v); return *this; } \
    mint& operator*=(const mint& r) { _v = (unsigned)((unsigned long long)_v * r._v % umod()); return *this; } \
    mint& operator/=(const mint& r) { return *this = *this * r.inv(); } \
    mint operator+() const { return *this; } \
    mint operator-() const { return mint() - *this; } \
    mint pow(long long n) const { assert(0 <= n); mint x = *this, r = 1; while (n) { if (n & 1) r *= x; x *= x; n >>= 1; } return r; } \
    mint inv() const { auto eg = internal::inv_gcd(_v, umod()); assert(eg.first == 1); return eg.second; } \
    friend mint operator+(const mint& l, const mint& r) { return mint(l) += r; } \
    friend mint operator-(const mint& l, const mint& r) { return mint(l) -= r; } \
    friend mint operator*(const mint& l, const mint& r) { return mint(l) *= r; } \
    friend mint operator/(const mint& l, const mint& r) { return mint(l) /= r; } \
    friend bool operator==(const mint& l, const mint& r) { return l._v == r._v; } \
    friend bool operator!=(const mint& l, const mint& r) { return l._v != r._v; }
template <int m, std::enable_if_t<(1 <= m)>* = nullptr>
struct static_modint : internal::static_modint_base {
    using mint = static_modint;
    static constexpr int mod() { return m; }
    static mint raw(int v) { mint x; x._v = v; return x; }
    static_modint() : _v(0) {}
    template <class T, internal::is_signed_int_t<T>* = nullptr> static_modint(T v) { long long x = (long long)(v % (long long)(umod())); if (x < 0) x += umod(); _v = (unsigned int)(x); }
    template <class T, internal::is_unsigned_int_t<T>* = nullptr> static_modint(T v) { _v = (unsigned int)(v % umod()); }
    int val() const { return _v; }
    VACL_MODINT_OPS(mint)
private:
    unsigned int _v;
    static constexpr unsigned int umod() { return m; }
};
template <int id> struct dynamic_modint : internal::modint_base {
    using mint = dynamic_modint;
    static int mod() { return (int)umod_ref(); }
    static void set_mod(int m) { assert(1 <= m); umod_ref() = m; }
    static mint raw(int v) { mint x; x._v = v; return x; }
    dynamic_modint() : _v(0) {}
    template <class T, internal::is_signed_int_t<T>* = nullptr> dynamic_modint(T v) { long long x = (long long)(v % (long long)(mod())); if (x < 0) x += mod(); _v = (unsigned int)(x); }
    template <class T, internal::is_unsigned_int_t<T>* = nullptr> dynamic_modint(T v) { _v = (unsigned int)(v % mod()); }
    int val() const { return _v; }
    VACL_MODINT_OPS(mint)
private:
    unsigned int _v;
    static unsigned int& umod_ref() { static unsigned int m = 998244353; return m; }
    static unsigned int umod() { return umod_ref(); }
};
#undef VACL_MODINT_OPS
using modint998244353 = static_modint<998244353>;
using modint1000000007 = static_modint<1000000007>;
using modint = dynamic_modint<-1>;
namespace internal {
template <class T> using is_static_modint = std::is_base_of<static_modint_base, T>;
template <class T> using is_static_modint_t = std::enable_if_t<is_static_modint<T>::value>;
template <class> struct is_dynamic_modint : public std::false_type {};
template <int id> struct is_dynamic_modint<dynamic_modint<id>> : public std::true_type {};
template <class T> using is_dynamic_modint_t = std::enable_if_t<is_dynamic_modint<T>::value>;
}
}
#endif

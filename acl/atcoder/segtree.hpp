#ifndef VACL_SEGTREE
#define VACL_SEGTREE 1
#include <algorithm>
#include <cassert>
#include <vector>
#include "internal_bit.hpp"
namespace atcoder {
template <class S, S (*op)(S, S), S (*e)()> struct segtree {
    segtree() : segtree(0) {}
    explicit segtree(int n) : segtree(std::vector<S>(n, e())) {}
    explicit segtree(const std::vector<S>& v) : _n(int(v.size())) {
        size = (int)internal::bit_ceil((unsigned)(_n)); log = internal::ceil_pow2(size);
        d = std::vector<S>(2 * size, e());
        for (int i = 0; i < _n; i++) d[size + i] = v[i];
        for (int i = size - 1; i >= 1; i--) update(i);
    }
    void set(int p, S x) { assert(0 <= p && p < _n); p += size; d[p] = x; for (int i = 1; i <= log; i++) update(p >> i); }
    S get(int p) const { assert(0 <= p && p < _n); return d[p + size]; }
    S prod(int l, int r) const {
        assert(0 <= l && l <= r && r <= _n);
        S sml = e(), smr = e(); l += size; r += size;
        while (l < r) { if (l & 1) sml = op(sml, d[l++]); if (r & 1) smr = op(d[--r], smr); l >>= 1; r >>= 1; }
        return op(sml, smr);
    }
    S all_prod() const { return d[1]; }
    template <bool (*f)(S)> int max_right(int l) const { return max_right(l, [](S x) { return f(x); }); }
    template <class F> int max_right(int l, F f) const {
        assert(0 <= l && l <= _n); assert(f(e()));
        S s = e(); int i = l;
        while (i < _n) { S t = op(s, d[i + size]); if (!f(t)) return i; s = t; ++i; }
        return _n;
    }
    template <bool (*f)(S)> int min_left(int r) const { return min_left(r, [](S x) { return f(x); }); }
    template <class F> int min_left(int r, F f) const {
        assert(0 <= r && r <= _n); assert(f(e()));
        S s = e(); int i = r;
        while (i > 0) { S t = op(d[i - 1 + size], s); if (!f(t)) return i; s = t; --i; }
        return 0;
    }
private:
    int _n, size, log; std::vector<S> d;
    void update(int k) { d[k] = op(d[2 * k], d[2 * k + 1]); }
};
}
#endif

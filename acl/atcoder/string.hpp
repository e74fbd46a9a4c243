#ifndef VACL_STRING
#define VACL_STRING 1
#include <algorithm>
#include <cassert>
#include <numeric>
#include <string>
#include <vector>
namespace atcoder {
template <class T> std::vector<int> suffix_array(const std::vector<T>& s) {
    int n = int(s.size()); std::vector<int> sa(n), rk(n), tmp(n);
    std::iota(sa.begin(), sa.end(), 0);
    std::vector<T> v(s); std::sort(v.begin(), v.end());
    for (int i = 0; i < n; ++i) rk[i] = int(std::lower_bound(v.begin(), v.end(), s[i]) - v.begin());
    for (int k = 1;; k *= 2) {
        auto key = [&](int i) { return std::make_pair(rk[i], i + k < n ? rk[i + k] : -1); };
        std::sort(sa.begin(), sa.end(), [&](int a, int b) { return key(a) < key(b); });
        if (n) tmp[sa[0]] = 0;
        for (int i = 1; i < n; ++i) tmp[sa[i]] = tmp[sa[i - 1]] + (key(sa[i - 1]) < key(sa[i]));
        rk = tmp;
        if (k >= n) break;
    }
    return sa;
}
inline std::vector<int> suffix_array(const std::vector<int>& s, int upper) { for (int d : s) assert(0 <= d && d <= upper); return suffix_array(s); }
inline std::vector<int> suffix_array(const std::string& s) { return suffix_array(std::vector<unsigned char>(s.begin(), s.end())); }
template <class T> std::vector<int> lcp_array(const std::vector<T>& s, const std::vector<int>& sa) {
    int n = int(s.size()); assert(n >= 1);
    std::vector<int> rnk(n), lcp(n - 1);
    for (int i = 0; i < n; i++) rnk[sa[i]] = i;
    int h = 0;
    for (int i = 0; i < n; i++) { if (h > 0) h--; if (rnk[i] == 0) continue; int j = sa[rnk[i] - 1]; for (; j + h < n && i + h < n; h++) if (s[j + h] != s[i + h]) break; lcp[rnk[i] - 1] = h; }
    return lcp;
}
inline std::vector<int> lcp_array(const std::string& s, const std::vector<int>& sa) { return lcp_array(std::vector<unsigned char>(s.begin(), s.end()), sa); }
template <class T> std::vector<int> z_algorithm(const std::vector<T>& s) {
    int n = int(s.size()); std::vector<int> z(n); if (!n) return z;
    for (int i = 1, j = 0; i < n; i++) { int& k = z[i]; k = (j + z[j] <= i) ? 0 : std::min(j + z[j] - i, z[i - j]); while (i + k < n && s[k] == s[i + k]) k++; if (j + z[j] < i + z[i]) j = i; }
    z[0] = n; return z;
}
inline std::vector<int> z_algorithm(const std::string& s) { return z_algorithm(std::vector<unsigned char>(s.begin(), s.end())); }
}
#endif

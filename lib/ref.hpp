// Reference models. Deliberately naive.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;

// suffix array of T followed by a virtual, smallest end marker: n+1 entries (the empty suffix first)
inline std::vector<uint32_t> suffixes(const uint8_t *T, size_t n)
{
    std::vector<uint32_t> sa(n + 1);
    for (size_t i = 0; i <= n; i++) sa[i] = i;
    std::sort(sa.begin(), sa.end(), [&](uint32_t a, uint32_t b) {
        size_t la = n - a, lb = n - b; int m = memcmp(T + a, T + b, std::min(la, lb));
        return m ? m < 0 : la < lb; });
    return sa;
}
struct Bwt { Bytes rows; uint64_t last; };
inline Bwt bwt(const uint8_t *T, size_t n)
{
    Bwt r; r.rows.resize(n + 1); r.last = 0; std::vector<uint32_t> sa = suffixes(T, n);
    for (size_t i = 0; i <= n; i++) if (sa[i] == 0) { r.last = i; r.rows[i] = 0; } else r.rows[i] = T[sa[i] - 1];
    return r;
}
// Inverse transform. Returns "" and fills out if (rows,last) is the transform of some string: its LF
// permutation must be one cycle over all n+1 rows. rows has n+1 entries, rows[last] is ignored.
inline std::string inverse(const uint8_t *rows, size_t n, uint64_t last, Bytes &out)
{
    if (last > n) return "marker index out of range";
    if (last == 0) return n == 0 ? "" : "marker index 0 for a non-empty string";
    std::vector<uint64_t> C(257, 0); std::vector<uint32_t> lf(n + 1);
    for (size_t i = 0; i <= n; i++) if (i != last) C[rows[i] + 1]++;
    C[0] = 1; for (int c = 1; c <= 256; c++) C[c] += C[c - 1];
    for (size_t i = 0; i <= n; i++) if (i != last) lf[i] = C[rows[i]]++;
    lf[last] = 0; out.resize(n); size_t r = 0;
    for (size_t i = n; i-- > 0;)
    {
        if (r == last) return "rows do not form one cycle";
        out[i] = rows[r]; r = lf[r];
    }
    return r == last ? "" : "rows do not form one cycle";
}
// full check of a transform against its input: "" if right
inline std::string check(const uint8_t *T, size_t n, const uint8_t *rows, uint64_t last, size_t naive_up_to = 64)
{
    if (last > n) return "marker index " + std::to_string(last) + " is outside 0.." + std::to_string(n);
    if (n <= naive_up_to)
    {
        Bwt b = bwt(T, n);
        if (b.last != last) return "marker index is " + std::to_string(last) + ", must be " + std::to_string(b.last);
        for (size_t i = 0; i <= n; i++) if (i != last && rows[i] != b.rows[i]) return "row " + std::to_string(i) + " is " + std::to_string(rows[i]) + ", must be " + std::to_string(b.rows[i]);
    }
    static thread_local Bytes back; std::string e = inverse(rows, n, last, back);
    if (!e.empty()) return "not invertible: " + e;
    if (memcmp(back.data(), T, n)) { size_t i = 0; while (back[i] == T[i]) i++; return "inverting the transform gives a different string, first difference at byte " + std::to_string(i); }
    return "";
}
// S/L types with virtual end marker (type S at n); LMS = leftmost S (p >= 1)
inline std::vector<uint8_t> types_s(const uint8_t *T, size_t n)
{
    std::vector<uint8_t> s(n + 1); s[n] = 1;
    for (size_t i = n; i-- > 0;) s[i] = i + 1 == n ? 0 : T[i] < T[i + 1] ? 1 : T[i] > T[i + 1] ? 0 : s[i + 1];
    return s;
}
inline std::vector<size_t> lms(const uint8_t *T, size_t n)
{
    std::vector<uint8_t> s = types_s(T, n); std::vector<size_t> r;
    for (size_t i = 1; i < n; i++) if (s[i] && !s[i - 1]) r.push_back(i);
    return r;
}
}

// Input spaces: every space is finite and indexable and is enumerated completely.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "mc.hpp"

namespace inputs {
typedef std::vector<uint8_t> Bytes;
struct Space { std::string name, rule; uint64_t size; std::function<void(uint64_t, Bytes &)> gen; double timeout; uint64_t chunk; };
inline Space mk(const std::string &n, const std::string &r, uint64_t s, std::function<void(uint64_t, Bytes &)> g, double timeout = 60, uint64_t chunk = 0) { return Space{n, r, s, g, timeout, chunk}; }

inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
inline std::string nm(const Bytes &l) { std::string s; for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + std::to_string(l[i]); return s; }

// all words over `letters` of length lo..hi, shortest first
inline Space words(Bytes letters, unsigned lo, unsigned hi)
{
    uint64_t total = 0; unsigned K = letters.size(); for (unsigned n = lo; n <= hi; n++) total += ipow(K, n);
    return mk("words{" + nm(letters) + "}" + std::to_string(lo) + ".." + std::to_string(hi), "every string over these byte values with a length in this range", total, [=](uint64_t i, Bytes &o) {
        unsigned n = lo; while (i >= ipow(K, n)) { i -= ipow(K, n); n++; }
        o.resize(n); for (unsigned p = n; p-- > 0;) { o[p] = letters[i % K]; i /= K; } });
}
// all strings of length n up to order-isomorphism (every weak ordering of n positions)
inline std::shared_ptr<std::vector<uint8_t>> weak_orders(unsigned n)
{
    auto v = std::make_shared<std::vector<uint8_t>>();
    // a word is canonical when its set of ranks is exactly {0..m-1}
    std::vector<uint8_t> w(n); 
    std::function<void(unsigned, uint32_t, unsigned)> rec = [&](unsigned p, uint32_t used, unsigned mx) {
        unsigned holes = mx - __builtin_popcount(used);      // ranks below mx not used yet
        if (holes > n - p) return;
        if (p == n) { v->insert(v->end(), w.begin(), w.end()); return; }
        for (unsigned r = 0; r < n; r++) { w[p] = r; rec(p + 1, used | (1u << r), std::max(mx, r + 1)); }
    };
    rec(0, 0, 0);
    return v;
}
inline Space orders(unsigned n, int mapping)
{
    auto v = weak_orders(n); const char *mn[] = {"low", "high", "spread"};
    return mk("orders" + std::to_string(n) + "-" + mn[mapping], std::string("every string of this length up to order-isomorphism, ranks mapped to ") + (mapping == 0 ? "bytes 0,1,2.." : mapping == 1 ? "bytes ..254,255" : "bytes spread over 0..255"), v->size() / n, [=](uint64_t i, Bytes &o) {
        const uint8_t *w = v->data() + i * n; unsigned m = 0; for (unsigned k = 0; k < n; k++) m = std::max<unsigned>(m, w[k] + 1);
        o.resize(n); for (unsigned k = 0; k < n; k++) o[k] = mapping == 0 ? w[k] : mapping == 1 ? 255 - (m - 1) + w[k] : (m == 1 ? 128 : w[k] * 255 / (m - 1)); });
}
inline Space all_bytes(unsigned n) { Bytes l(256); for (int i = 0; i < 256; i++) l[i] = i; Space s = words(l, n, n); s.name = "allbytes-len" + std::to_string(n); s.rule = "every byte string of this length"; return s; }

// run-length skeletons: every adjacent-distinct letter pattern of r runs over k letters x every exponent vector over E
inline Space runs(unsigned r, Bytes letters, std::vector<uint32_t> E, const std::string &tag, double timeout = 60, uint64_t chunk = 0)
{
    unsigned k = letters.size(); uint64_t pats = k * ipow(k - 1, r - 1), es = ipow(E.size(), r);
    return mk("runs" + std::to_string(r) + "-" + tag, "c1^e1..c" + std::to_string(r) + "^e" + std::to_string(r) + ", letters {" + nm(letters) + "}, neighbours distinct, every exponent vector over " + std::to_string(E.size()) + " boundary values up to " + std::to_string(*std::max_element(E.begin(), E.end())), pats * es, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); o.clear(); std::vector<uint32_t> e(r); for (auto &x : e) x = E[d.pick(E.size())];
        unsigned c = d.pick(k); for (unsigned j = 0; j < r; j++) { if (j) { unsigned t = d.pick(k - 1); c = t + (t >= c); } o.insert(o.end(), e[j], letters[c]); } }, timeout, chunk);
}
// prefix u^k suffix
inline Space periodic(unsigned maxu, std::vector<uint32_t> K, Bytes L = {'a', 'b', 'c'})
{
    std::vector<Bytes> us; for (unsigned n = 1; n <= maxu; n++) for (uint64_t i = 0; i < ipow(3, n); i++) { Bytes u(n); uint64_t v = i; for (auto &x : u) { x = L[v % 3]; v /= 3; } us.push_back(u); }
    std::vector<Bytes> ext{{}, {L[0]}, {L[1]}, {L[2]}, {L[2], L[0]}};
    return mk("periodic" + std::to_string(maxu), "x u^k y for every word u of length 1.." + std::to_string(maxu) + " over 3 letters, 5 prefixes x, 5 suffixes y, every k in " + std::to_string(K.size()) + " boundary values up to " + std::to_string(*std::max_element(K.begin(), K.end())), us.size() * 25 * K.size(), [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); const Bytes &x = ext[d.pick(5)], &y = ext[d.pick(5)], &u = us[d.pick(us.size())]; uint32_t k = K[d.pick(K.size())];
        o = x; for (uint32_t j = 0; j < k; j++) o.insert(o.end(), u.begin(), u.end()); o.insert(o.end(), y.begin(), y.end()); });
}
// ((X^i Y^j)^k Z)^l grammars
inline Space grammar(std::vector<uint32_t> E, Bytes L = {'a', 'b'})
{
    std::vector<Bytes> ws; for (unsigned n = 1; n <= 3; n++) for (uint64_t i = 0; i < ipow(2, n); i++) { Bytes u(n); uint64_t v = i; for (auto &x : u) { x = L[v % 2]; v /= 2; } ws.push_back(u); }
    std::vector<Bytes> zs{{}, {L[0]}, {L[1]}, {(uint8_t)(L[1] + 1)}};
    return mk("grammar", "((X^i Y^j)^k Z)^l for all words X,Y of length 1..3 over 2 letters, 4 words Z, exponents from the set", ws.size() * ws.size() * 4 * E.size() * E.size() * E.size() * 2, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); const Bytes &X = ws[d.pick(ws.size())], &Y = ws[d.pick(ws.size())], &Z = zs[d.pick(4)]; uint32_t a = E[d.pick(E.size())], b = E[d.pick(E.size())], c = E[d.pick(E.size())], l = 1 + 2 * d.pick(2);
        o.clear(); while (l--) { for (uint32_t q = 0; q < c; q++) { for (uint32_t p = 0; p < a; p++) o.insert(o.end(), X.begin(), X.end()); for (uint32_t p = 0; p < b; p++) o.insert(o.end(), Y.begin(), Y.end()); } o.insert(o.end(), Z.begin(), Z.end()); } });
}
// infinite base words, by index
inline unsigned n_bases() { return 16; }
inline void base_word(unsigned b, size_t n, Bytes &o)
{
    o.resize(n);
    auto morph = [&](const std::vector<Bytes> &m, Bytes w) { while (w.size() < n) { Bytes x; for (uint8_t c : w) x.insert(x.end(), m[c].begin(), m[c].end()); w.swap(x); } for (size_t i = 0; i < n; i++) o[i] = 'a' + w[i]; };
    uint32_t s = 12345;
    switch (b)
    {
    case 0: for (size_t i = 0; i < n; i++) o[i] = 'a'; break;
    case 1: for (size_t i = 0; i < n; i++) o[i] = i & 1 ? 'b' : 'a'; break;
    case 2: for (size_t i = 0; i < n; i++) o[i] = i & 1 ? 'a' : 'b'; break;
    case 3: for (size_t i = 0; i < n; i++) o[i] = "abc"[i % 3]; break;
    case 4: for (size_t i = 0; i < n; i++) o[i] = "cba"[i % 3]; break;
    case 5: morph({{0, 1}, {0}}, {0}); break;                       // Fibonacci
    case 6: morph({{0, 1}, {1, 0}}, {0}); break;                    // Thue-Morse
    case 7: morph({{0, 1}, {0, 0}}, {0}); break;                    // period doubling
    case 8: morph({{0, 1}, {0, 2}, {0}}, {0}); break;               // Tribonacci
    case 9: for (size_t i = 0; i < n; i++) o[i] = i; break;         // 0..255 cyclic
    case 10: for (size_t i = 0; i < n; i++) o[i] = 255 - i; break;
    case 11: for (size_t i = 0; i < n; i++) { s = s * 1103515245 + 12345; o[i] = s >> 16; } break;     // fixed byte noise
    case 12: for (size_t i = 0; i < n; i++) { s = s * 1103515245 + 12345; o[i] = (s >> 20) & 1; } break; // fixed bit noise over {0,1}
    case 13: for (size_t i = 0; i < n; i++) { s = s * 1103515245 + 12345; o[i] = 252 + ((s >> 20) & 3); } break;
    case 14: for (size_t i = 0; i < n; i++) o[i] = "mississippi"[i % 11]; break;
    default: for (size_t i = 0; i < n; i++) o[i] = (i * i) >> 3; break;
    }
}
inline Space sweep(std::vector<std::pair<uint32_t, uint32_t>> ranges, const std::string &tag, double timeout = 60, uint64_t chunk = 0)
{
    std::vector<uint32_t> ns; for (auto &r : ranges) for (uint32_t n = r.first; n <= r.second; n++) ns.push_back(n);
    return mk("sweep-" + tag, "prefixes of 16 base words (constant, periodic, Fibonacci, Thue-Morse, period-doubling, Tribonacci, byte ramps, fixed noise, squares) at every length in the ranges", (uint64_t)ns.size() * n_bases(), [=](uint64_t i, Bytes &o) { base_word(i % n_bases(), ns[i / n_bases()], o); }, timeout, chunk);
}
// one deviation: a base word of length n with one byte replaced, at every position
inline Space mutate(uint32_t n, std::vector<unsigned> bases, const std::string &tag)
{
    return mk("mutate-" + tag, "base words of length " + std::to_string(n) + " with one byte replaced by 0, 255, c-1, c+1 or removed, at every position", (uint64_t)n * 5 * bases.size(), [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); unsigned how = d.pick(5); size_t pos = d.pick(n); base_word(bases[d.pick(bases.size())], n, o);
        if (how == 0) o[pos] = 0; else if (how == 1) o[pos] = 255; else if (how == 2) o[pos]--; else if (how == 3) o[pos]++; else if (n > 1) o.erase(o.begin() + pos); });
}
// order-preserving doubling: interleave a smaller symbol, d times: recursion depth >= d in the suffix sorter
inline Space deep(unsigned maxlen, unsigned K, unsigned lo, unsigned hi)
{
    uint64_t nw = 0; for (unsigned n = 1; n <= maxlen; n++) nw += ipow(K, n);
    return mk("deep" + std::to_string(maxlen) + "x" + std::to_string(hi), "every word of length 1.." + std::to_string(maxlen) + " over " + std::to_string(K) + " symbols, interleaved with ever smaller symbols " + std::to_string(lo) + ".." + std::to_string(hi) + " times (nested LMS structure), with and without a first / last symbol cut", nw * (hi - lo + 1) * 4, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); unsigned cut = d.pick(4), dep = lo + d.pick(hi - lo + 1); uint64_t w = d.v; unsigned n = 1; while (w >= ipow(K, n)) { w -= ipow(K, n); n++; }
        Bytes a(n); for (auto &x : a) { x = w % K; w /= K; }
        for (unsigned k = 0; k < dep; k++) { Bytes b; for (uint8_t c : a) { b.push_back(0); b.push_back(c + 1); } a.swap(b); }
        if ((cut & 1) && a.size() > 1) a.erase(a.begin());
        if ((cut & 2) && a.size() > 1) a.pop_back();
        for (auto &c : a) c += 'a';
        o = a; });
}
// two or three pieces that agree for a long time: a c^L .. with different ends
inline Space twins(std::vector<uint32_t> Ls, const std::string &tag, double timeout = 60, uint64_t chunk = 0)
{
    return mk("twins-" + tag, "every sequence of three pieces out of a c^L, a c^L b, a c^L b b, a c^(L+1), a c^L a a (agreeing on their first L characters), with and without a lead, for every L in the set", (uint64_t)Ls.size() * 125 * 2, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); unsigned lead = d.pick(2), k[3] = {(unsigned)d.pick(5), (unsigned)d.pick(5), (unsigned)d.pick(5)}; uint32_t L = Ls[d.pick(Ls.size())];
        o.clear(); if (lead) o.push_back('b');
        for (unsigned x : k) { o.push_back('a'); o.insert(o.end(), L + (x == 3), 'c'); if (x == 1 || x == 2) o.insert(o.end(), x, 'b'); if (x == 4) o.insert(o.end(), 2, 'a'); }
        o.push_back('a'); o.push_back('b'); }, timeout, chunk);
}
// one piece in a chosen slot of the dictionary (67777 slots): 255 x y z 255 1 with the piece x y z
inline const std::vector<Bytes> &slot_pieces()
{
    static std::vector<Bytes> v; if (!v.empty()) return v;
    v.resize(67777); for (int a = 0; a < 255; a++) for (int b = 255; b > a; b--) for (int d = 0; d < b && d < 254; d++) { Bytes &p = v[(a * 10201 + b * 101 + d) % 67777]; if (p.empty()) p = {(uint8_t)a, (uint8_t)b, (uint8_t)d}; }
    return v;
}
inline Space slots(std::vector<uint32_t> hs, const std::string &tag)
{
    return mk("slots-" + tag, "strings whose only piece falls into a chosen dictionary slot, twice in a row, for every slot in the set", hs.size(), [=](uint64_t i, Bytes &o) {
        const Bytes &p = slot_pieces()[hs[i]]; o.clear(); o.push_back(255); for (int k = 0; k < 2; k++) { o.insert(o.end(), p.begin(), p.end()); o.push_back(254); o.push_back(255); } });
}
// two different pieces of one dictionary slot: the second is the first with 1 or 2 more characters, or agrees
// with it on its first character only
inline Space slot_twins(bool all)
{
    const uint64_t P = 67777; uint64_t inv100 = 1; while (inv100 * 100 % P != 1) inv100++; uint64_t k2 = 101 * 101 - 1, inv2 = 1; while (inv2 * k2 % P != 1) inv2++;
    auto pairs = std::make_shared<std::vector<std::pair<Bytes, Bytes>>>(); const std::vector<Bytes> &sp = slot_pieces();
    for (unsigned w = 0; w < 254; w++) { const Bytes &s = sp[(P - w) * inv100 % P]; if (!s.empty() && w < s.back()) { Bytes m = s; m.push_back(w); pairs->push_back({s, m}); } }
    for (unsigned w = 1; w < 254; w += all ? 1 : 7) for (unsigned v = 0; v < w; v += all ? 3 : 17) { const Bytes &s = sp[(P - (101 * w + v) % P) % P * inv2 % P]; if (!s.empty() && w < s.back()) { Bytes m = s; m.push_back(w); m.push_back(v); pairs->push_back({s, m}); } }
    size_t prefix_pairs = pairs->size();
    for (unsigned h = 0; h < P; h += all ? 20 : 700) { const Bytes &s = sp[h]; if (s.empty()) continue; uint64_t a = s[0]; for (unsigned y = 255; y > a && y > 3; y -= 40) { // a y z w v in the same slot, z > w > v
        bool hit = false; for (unsigned z = y - 1; z > 2 && !hit; z--) for (unsigned w = z - 1; w > 1 && !hit; w--) { uint64_t pre = (((a * 101 + y) * 101 + z) * 101 + w) * 101 % P, v = (h + P - pre) % P; if (v < w && v < 254) { pairs->push_back({s, {(uint8_t)a, (uint8_t)y, (uint8_t)z, (uint8_t)w, (uint8_t)v}}); hit = true; } } if (y < 44) break; } }
    (void)prefix_pairs;
    return mk("slot-twins", "two pieces of different length in one dictionary slot (the longer one an extension of the shorter, or not), every sequence of one to three of them", pairs->size() * 14, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); unsigned q = d.pick(14), n = q < 2 ? 1 : q < 6 ? 2 : 3, b = q - (n == 1 ? 0 : n == 2 ? 2 : 6); const std::pair<Bytes, Bytes> &p = (*pairs)[d.pick(pairs->size())];
        o.clear(); o.push_back(255); for (unsigned k = 0; k < n; k++) { const Bytes &x = b >> k & 1 ? p.second : p.first; o.insert(o.end(), x.begin(), x.end()); o.push_back(254); o.push_back(255); } });
}
// N distinct pieces. dense: 2 bytes per piece (x y), all (x,y,x') different. sparse: decreasing interiors
inline void dense_pieces(uint32_t N, unsigned X, Bytes &o, std::vector<Bytes> *out = nullptr)
{
    // de Bruijn order 2 over X symbols as x-sequence, one y per full turn
    std::vector<uint8_t> db; // standard: for a: a, (a b)... for b > a
    for (unsigned a = 0; a < X; a++) { db.push_back(a); for (unsigned b = a + 1; b < X; b++) { db.push_back(a); db.push_back(b); } }
    o.clear();
    for (uint32_t i = 0; i < N; i++) { o.push_back(db[i % db.size()]); o.push_back(128 + (i / db.size()) % 128); }
    (void)out;
}
inline Space names_dense(std::vector<uint32_t> Ns, const std::string &tag, double timeout = 60, uint64_t chunk = 0)
{
    return mk("names-dense-" + tag, "y x1 y1 x2 y2..: N pieces of 3 bytes, all different (as many names as the length allows), for every N in the set, then 0 / few / all of them repeated, even and odd total length", (uint64_t)Ns.size() * 3 * 2 * 2 * 2, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); unsigned rep = d.pick(3), lead = d.pick(2), tail = d.pick(2), wide = d.pick(2); uint32_t N = Ns[d.pick(Ns.size())];
        unsigned X = N <= 100 ? 4 : N <= 2000 ? (wide ? 8 : 4) : N <= 100000 ? (wide ? 60 : 31) : 100; while ((uint64_t)X * X * 128 < N + 4) X++;
        dense_pieces(N, X, o); Bytes p = o; if (lead) o.insert(o.begin(), 200);
        if (rep == 1) o.insert(o.end(), p.begin(), p.begin() + std::min<size_t>(p.size(), 14)); else if (rep == 2) o.insert(o.end(), p.begin(), p.end());
        if (tail) o.push_back(1); }, timeout, chunk);
}
inline Bytes sparse_piece(uint32_t k) // k-th strictly decreasing interior behind a 0: (y>z) then (y>z>w)
{
    if (k < 255) return {0, (uint8_t)(k + 1)};
    k -= 255; if (k < 255 * 254 / 2) { unsigned y = 2; while (k >= y - 1) { k -= y - 1; y++; } return {0, (uint8_t)y, (uint8_t)(k + 1)}; }
    k -= 255 * 254 / 2; unsigned y = 3; while (k >= (y - 1) * (y - 2) / 2) { k -= (y - 1) * (y - 2) / 2; y++; } unsigned z = 2; while (k >= z - 1) { k -= z - 1; z++; }
    return {0, (uint8_t)y, (uint8_t)z, (uint8_t)(k + 1)};
}
inline Space names_sparse(std::vector<uint32_t> Ns, const std::string &tag, double timeout = 60, uint64_t chunk = 0)
{
    return mk("names-sparse-" + tag, "N distinct pieces 0 y.. with decreasing interiors, listed ascending / descending / bit-reversed, then followed by: nothing / the same list / the reversed list / the list with its last two swapped, for every N in the set", (uint64_t)Ns.size() * 3 * 4 * 2, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); unsigned ord = d.pick(3), rep = d.pick(4), lead = d.pick(2); uint32_t N = Ns[d.pick(Ns.size())];
        std::vector<uint32_t> l; unsigned lg = 0; while ((1u << lg) < N) lg++;
        if (ord < 2) for (uint32_t k = 0; k < N; k++) l.push_back(ord ? N - 1 - k : k); else for (uint32_t k = 0; k < (1u << lg); k++) { uint32_t r = 0; for (unsigned b = 0; b < lg; b++) if (k >> b & 1) r |= 1u << (lg - 1 - b); if (r < N) l.push_back(r); }
        std::vector<uint32_t> m = l; if (rep == 2) std::reverse(m.begin(), m.end()); if (rep == 3 && N > 1) std::swap(m[N - 1], m[N - 2]); if (rep) l.insert(l.end(), m.begin(), m.end());
        o.clear(); if (lead) o.push_back(7); for (uint32_t k : l) { Bytes p = sparse_piece(k); o.insert(o.end(), p.begin(), p.end()); } }, timeout, chunk);
}
// pieces that share one dictionary slot (polynomial hash, base 101, 67777 slots): 0 255^k y z w v 0
inline Space collide(std::vector<uint32_t> ks, std::vector<uint32_t> Ms, const std::string &tag, double timeout = 60, uint64_t chunk = 16)
{
    const uint64_t P = 67777; auto pool = std::make_shared<std::vector<std::vector<Bytes>>>();
    uint32_t maxM = *std::max_element(Ms.begin(), Ms.end());
    for (uint32_t k : ks)
    {
        std::vector<Bytes> v; uint64_t pre = 0; for (uint32_t j = 0; j < k; j++) pre = (pre * 101 + 255) % P; uint64_t target = 4242;
        for (int y = 250; y >= 4 && v.size() < maxM; y--) for (int z = y - 1; z >= 3 && v.size() < maxM; z--) for (int w = z - 1; w >= 2 && v.size() < maxM; w--)
        {
            uint64_t h = ((((pre * 101 + y) * 101 + z) * 101 + w) * 101) % P; // + v, then *101
            // find v in 1..w-1 with (h+v)*101 % P == target  <=> h + v == target/101 (P is odd and 101 is prime to it)
            static uint64_t inv = 0; if (!inv) for (inv = 1; inv * 101 % P != 1; inv++) {}
            uint64_t need = target * inv % P, val = (need + P - h) % P;
            if (val >= 1 && val < (uint64_t)w) { Bytes p(1, 0); p.insert(p.end(), k, 255); p.push_back(y); p.push_back(z); p.push_back(w); p.push_back(val); v.push_back(p); }
        }
        pool->push_back(v);
    }
    return mk("collide-" + tag, "M distinct pieces of equal length that fall into one dictionary slot (several storage blocks), in order, then nothing / the same list / reversed, for every M and piece length in the sets", (uint64_t)ks.size() * Ms.size() * 3, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); unsigned rep = d.pick(3); uint32_t M = Ms[d.pick(Ms.size())]; const std::vector<Bytes> &v = (*pool)[d.pick(ks.size())]; M = std::min<uint32_t>(M, v.size());
        o.clear(); for (uint32_t k = 0; k < M; k++) o.insert(o.end(), v[k].begin(), v[k].end());
        if (rep) for (uint32_t k = 0; k < M; k++) { const Bytes &p = v[rep == 1 ? k : M - 1 - k]; o.insert(o.end(), p.begin(), p.end()); }
        o.push_back(0); o.push_back(9); }, timeout, chunk);
}
// pieces of one slot and one length that agree in long heads and tails: 0 1^h a b c d 255^t 0
inline Space collide_middle(std::vector<uint32_t> hs, std::vector<uint32_t> ts, std::vector<uint32_t> Ms)
{
    const uint64_t P = 67777; auto pool = std::make_shared<std::vector<std::array<uint8_t, 4>>>(); uint32_t maxM = *std::max_element(Ms.begin(), Ms.end());
    for (unsigned a = 2; a < 252 && pool->size() < maxM; a++) for (unsigned b = a + 1; b < 253; b++) for (unsigned c = b + 1; c < 254; c++)
    {
        uint64_t v = (4242 + 4 * P - (((a * 101ull + b) * 101 + c) * 101) % P) % P; if (v > c && v < 255 && pool->size() < maxM) pool->push_back({(uint8_t)a, (uint8_t)b, (uint8_t)c, (uint8_t)v});
    }
    return mk("collide-middle", "M distinct pieces of equal length in one dictionary slot that agree in their first h+1 and last t+1 bytes, in order, then nothing / the same list / reversed, for every M, h and t in the sets", (uint64_t)hs.size() * ts.size() * Ms.size() * 3, [=](uint64_t i, Bytes &o) {
        mc::Radix d(i); unsigned rep = d.pick(3); uint32_t M = Ms[d.pick(Ms.size())], h = hs[d.pick(hs.size())], t = ts[d.pick(ts.size())]; M = std::min<uint32_t>(M, pool->size());
        auto put = [&](uint32_t k) { o.push_back(0); o.insert(o.end(), h, 1); o.insert(o.end(), (*pool)[k].begin(), (*pool)[k].end()); o.insert(o.end(), t, 255); };
        o.clear(); for (uint32_t k = 0; k < M; k++) put(k);
        if (rep) for (uint32_t k = 0; k < M; k++) put(rep == 1 ? k : M - 1 - k);
        o.push_back(0); o.push_back(9); }, 60, 16);
}
inline std::vector<uint32_t> range(uint32_t a, uint32_t b) { std::vector<uint32_t> v; for (; a <= b; a++) v.push_back(a); return v; }
inline std::vector<uint32_t> cat(std::initializer_list<std::vector<uint32_t>> l) { std::vector<uint32_t> r; for (auto &x : l) r.insert(r.end(), x.begin(), x.end()); return r; }

// small: complete spaces. level 0 = light (expensive monitors), 1 = quick, 2 = thorough
inline std::vector<Space> small(int level)
{
    std::vector<Space> s;
    s.push_back(all_bytes(1));
    if (level >= 1) s.push_back(all_bytes(2));
    int on = level == 0 ? 5 : level == 1 ? 7 : 8;
    for (int n = 1; n <= on; n++) for (int m = 0; m < 3; m++) if (level || m == 2 || n <= 4) s.push_back(orders(n, m));
    if (level >= 1) s.push_back(orders(level == 1 ? 8 : 9, 2));
    unsigned b2 = level == 0 ? 10 : level == 1 ? 16 : 20, b3 = level == 0 ? 6 : level == 1 ? 10 : 12, b4 = level == 0 ? 5 : level == 1 ? 8 : 9;
    s.push_back(words({'a', 'b'}, 1, b2)); s.push_back(words({0, 255}, 1, level == 0 ? 8 : b2 - 3)); s.push_back(words({0, 1}, 1, level == 0 ? 8 : b2 - 3)); if (level) s.push_back(words({254, 255}, 1, b2 - 4));
    s.push_back(words({'a', 'b', 'c'}, 1, b3)); s.push_back(words({0, 1, 255}, 1, level == 0 ? 5 : b3 - 1)); if (level) s.push_back(words({127, 128, 129}, 1, b3 - 2));
    s.push_back(words({0, 1, 101, 255}, 1, b4)); if (level) s.push_back(words({5, 6, 106, 107, 207}, 1, level == 1 ? 6 : 8));
    if (level >= 2) s.push_back(all_bytes(3));
    return s;
}
inline std::vector<Space> structured(int level)
{
    std::vector<Space> s; Bytes abc{'a', 'b', 'c'}, ext{0, 128, 255};
    std::vector<uint32_t> E1{1, 2, 3, 252, 253, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 1026}, E0{1, 2, 254, 255, 256, 1024}, E5{1, 2, 255, 256}, EL{1, 2, 254, 255, 256};
    std::vector<uint32_t> K1{1, 2, 3, 5, 9, 64, 127, 128, 129, 255, 256, 257, 341, 342, 512, 513, 1023, 1024, 1025}, K0{1, 2, 3, 128, 257, 1025};
    s.push_back(runs(2, abc, level ? E1 : E0, "abc")); s.push_back(runs(2, ext, level ? E1 : E0, "extreme"));
    s.push_back(runs(3, abc, level ? E1 : EL, "abc")); if (level) s.push_back(runs(3, ext, {1, 2, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025}, "extreme"));
    if (level) { s.push_back(runs(4, abc, E0, "abc")); s.push_back(runs(5, {'a', 'b'}, {1, 2, 253, 254, 255, 256, 257, 1024}, "ab")); s.push_back(runs(5, abc, level == 1 ? std::vector<uint32_t>{1, 255, 256} : E5, "abc")); s.push_back(runs(6, {'a', 'b'}, E0, "ab")); }
    s.push_back(periodic(level == 0 ? 2 : level == 1 ? 3 : 4, level ? K1 : K0)); if (level) s.push_back(periodic(2, K1, {0, 1, 255}));
    s.push_back(grammar(level == 0 ? std::vector<uint32_t>{1, 3} : level == 1 ? std::vector<uint32_t>{1, 2, 5} : std::vector<uint32_t>{1, 2, 3, 5, 8, 13}));
    s.push_back(sweep({{1, level == 0 ? 40u : level == 1 ? 1300u : 4300u}}, "short")); 
    if (level == 0) s.push_back(sweep({{253, 259}, {508, 516}, {1020, 1028}, {2047, 2051}}, "thresholds"));
    if (level == 1) s.push_back(sweep({{1500, 1545}, {2030, 2070}, {3065, 3080}, {4090, 4105}, {8190, 8200}}, "thresholds"));
    if (level) s.push_back(sweep({{16382, 16388}, {32766, 32770}, {65530, 65540}, {131064, 131078}}, "large", 120, 1)); else s.push_back(sweep({{131068, 131071}}, "large", 120, 1));
    s.push_back(mutate(level == 0 ? 40 : level == 1 ? 700 : 2200, level == 0 ? std::vector<unsigned>{1, 5, 14} : std::vector<unsigned>{0, 1, 3, 5, 6, 7, 14, 9, 12}, "base")); if (level) s.push_back(mutate(2100, {1, 5}, "base2100"));
    s.push_back(deep(level == 0 ? 3 : level == 1 ? 5 : 6, 3, 1, level == 0 ? 4 : 6)); if (level) s.push_back(deep(9, 2, 1, 3)); if (level > 1) s.push_back(deep(3, 3, 7, 10));
    std::vector<uint32_t> NS = cat({range(1, 36), range(60, 68), range(84, 87), range(124, 132), range(250, 262), range(508, 516), range(1020, 1028)}), NM = cat({range(2044, 2052), range(4092, 4100), range(8190, 8194), range(16382, 16386)});
    if (level == 0) { s.push_back(names_dense({1, 2, 3, 63, 64, 127, 128, 253, 254, 255, 256, 257, 511, 512}, "small")); s.push_back(names_sparse({1, 2, 3, 64, 255, 256, 257}, "small")); }
    else { s.push_back(names_dense(NS, "small")); s.push_back(names_sparse(NS, "small")); s.push_back(names_dense(NM, "medium", 60, 8)); s.push_back(names_sparse(NM, "medium", 60, 8)); s.push_back(names_dense({32767, 32768, 65533, 65534, 65535, 65536, 65537}, "large", 120, 1)); s.push_back(names_sparse(level == 1 ? std::vector<uint32_t>{65535, 65536} : std::vector<uint32_t>{32767, 32768, 32769, 65534, 65535, 65536, 65537}, "large", 120, 1)); }
    std::vector<uint32_t> ks = level == 0 ? std::vector<uint32_t>{0, 1, 100} : cat({range(0, 30), range(60, 64), range(120, 124), range(244, 256), range(500, 504)}), Ms = level == 0 ? std::vector<uint32_t>{2, 45, 100} : level == 1 ? std::vector<uint32_t>{2, 3, 10, 40, 44, 45, 46, 47, 48, 50, 90, 100, 200} : range(2, 120);
    s.push_back(collide(ks, Ms, "slot"));
    // hundreds and thousands of records in one slot: counters of 8 bits and limits on a walk
    s.push_back(level == 0 ? collide({1}, {256, 1100}, "crowd") : collide(level == 1 ? std::vector<uint32_t>{0, 1, 100, 250} : cat({range(0, 12), range(100, 104), range(248, 252)}), cat({range(253, 259), {300, 511, 512, 513, 1024, 1100, 2000}}), "crowd", 60, 4));
    s.push_back(level == 0 ? collide_middle({0, 8, 40}, {0, 8, 40}, {2, 10}) : collide_middle({0, 1, 3, 4, 7, 8, 12, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000}, {0, 1, 3, 4, 7, 8, 12, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000}, level == 1 ? std::vector<uint32_t>{2, 3, 20} : std::vector<uint32_t>{2, 3, 4, 20, 60}));
    if (level) s.push_back(slot_twins(level > 1));
    s.push_back(twins(level == 0 ? std::vector<uint32_t>{1, 252, 256, 1024} : level == 1 ? std::vector<uint32_t>{1, 2, 3, 8, 64, 252, 253, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096} : cat({range(1, 70), range(120, 130), range(250, 260), range(500, 516), range(1020, 1030), range(4094, 4098)}), "short")); if (level) s.push_back(twins(level == 1 ? std::vector<uint32_t>{70000} : std::vector<uint32_t>{8192, 16384, 32768, 65534, 65535, 65536, 70000, 131072}, "long", 120, 8));
    if (level) s.push_back(runs(3, {'a', 'b', 'c'}, level == 1 ? std::vector<uint32_t>{1, 65533, 65534, 65535, 65536} : std::vector<uint32_t>{1, 2, 65532, 65533, 65534, 65535, 65536, 65537}, "64k", 120, 4)); else s.push_back(runs(2, {'a', 'b', 'c'}, {1, 65533, 65534, 65535, 65536}, "64k", 120, 4));
    return s;
}
// single very large inputs (a few seconds each): fourth length byte, fourth name byte, millions of queue blocks
inline std::vector<Space> huge()
{
    std::vector<Space> s;
    s.push_back(mk("huge-runs", "a piece of about 2^24 bytes (four length bytes), three shapes x 5 lengths", 15, [](uint64_t i, Bytes &o) { size_t L = 16777213 + i / 3; o.clear(); unsigned k = i % 3; o.push_back('c'); o.push_back('a'); o.insert(o.end(), L, 'b'); o.push_back('a'); o.push_back('b'); if (k == 1) { o.push_back('a'); o.insert(o.end(), 1000, 'b'); o.push_back('a'); o.push_back('c'); } if (k == 2) o.insert(o.end(), 2000, 'a'); }, 600, 1));
    s.push_back(mk("huge-base", "base words Fibonacci, Thue-Morse, ramp, noise at lengths around 2^24 and 2^25 (fourth name byte)", 12, [](uint64_t i, Bytes &o) { unsigned b[] = {5, 6, 9, 11}; size_t n[] = {16777216, 33554430, 33554433}; base_word(b[i % 4], n[i / 4], o); }, 900, 1));
    return s;
}
inline std::string show(const Space &s, uint64_t i) { Bytes b; s.gen(i, b); return mc::show_bytes(b); }
}

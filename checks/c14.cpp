// C14: packed arrays against plain arrays, over all store histories in the bounds.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "packed_array.hpp"

static uint64_t maxv(unsigned w) { return w == 64 ? ~0ull : (1ull << w) - 1; }
struct Arr
{
    flbwt::PackedArray *a; std::vector<uint64_t> v; std::vector<char> known; unsigned w; mc::Cx &cx;
    Arr(uint64_t n, unsigned w_, mc::Cx &c) : v(n), known(n, 0), w(w_), cx(c) { alloc::On on; a = new flbwt::PackedArray(n, w); }
    ~Arr() { alloc::On on; delete a; }
    void set(uint64_t i, uint64_t x) { a->set_value(i, x); v[i] = x; known[i] = 1; cx.transitions()++; }
    void check(uint64_t lo, uint64_t hi)
    {
        for (uint64_t i = lo; i < hi; i++) if (known[i]) { uint64_t g = a->get_value(i); if (g != v[i]) cx.fail("element %" PRIu64 " of %zu (%u bits) reads 0x%" PRIx64 ", last stored 0x%" PRIx64, i, v.size(), w, g, v[i]); }
    }
    void check() { check(0, v.size()); }
    void fin()
    {
        check(); if (a->get_length() != v.size() || a->get_integer_bits() != w) cx.fail("reports length %" PRIu64 " and width %u, constructed with %zu and %u", a->get_length(), a->get_integer_bits(), v.size(), w);
        { alloc::On on; delete a; a = nullptr; }
        if (alloc::err[0]) cx.fail("%s", alloc::err); cx.traces()++;
    }
};
static void prep(unsigned f) { alloc::reset(); static const int F[] = {0x00, 0xFF, 0x5A, 0xA5}; alloc::fill = F[f & 3]; }

int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C14"; ex.args(argc, argv); bool th = ex.thorough;
    ex.worker_init = []() { alloc::init(6ULL << 30); };
    // store histories over three neighbouring elements at every alignment
    {
        const unsigned depth = th ? 5 : 4; const uint64_t ops = 3 * 4, H = inputs::ipow(ops, depth);
        ex.add("histories", "every width 1..64, every alignment (first element 0..63), every sequence of " + std::to_string(depth) + " stores over three neighbouring elements x values {0, all ones, 0101.., 1}, from two memory patterns; every element and both outer neighbours read after every store", 64ull * 64 * 2, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); unsigned f = r.pick(2), base = r.pick(64), w = 1 + r.pick(64); prep(f); uint64_t M = maxv(w), V[4] = {0, M, 0x5555555555555555ull & M, 1};
            for (uint64_t h = 0; h < H; h++)
            {
                if (h % 64 == 0) prep(f);
                uint64_t n = base + 5; alloc::fill = h & 1 ? 0xFF : 0x00; Arr A(n, w, cx); A.set(base, V[(h + 1) & 3]); A.set(base + 4, V[(h >> 2) & 3]);
                uint64_t x = h; for (unsigned d = 0; d < depth; d++) { uint64_t o = x % ops; x /= ops; A.set(base + 1 + o / 4, V[o % 4]); A.check(base, n); }
            }
            cx.state(mc::hash(w, base * 2 + f)); cx.traces() += H; }, [=](uint64_t i) { mc::Radix r(i); unsigned f = r.pick(2), base = r.pick(64), w = 1 + r.pick(64); return "width " + std::to_string(w) + ", elements " + std::to_string(base) + ".., pattern " + std::to_string(f); }, 120, 4);
    }
    // whole arrays: fill in three orders, overwrite one element, all others unchanged
    {
        std::vector<uint32_t> Ls = inputs::cat({inputs::range(0, th ? 200 : 131), {191, 192, 193, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}});
        ex.add("overwrite", "every width x every length up to " + std::to_string(th ? 200 : 131) + " and around 256, 512, 1024: fill upwards / downwards / bit-reversed with a pattern, then overwrite each element in turn with 0, all ones, its complement; whole array compared each time", 64ull * Ls.size() * 3, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); unsigned o = r.pick(3); uint64_t n = Ls[r.pick(Ls.size())]; unsigned w = 1 + r.pick(64); prep(i); Arr A(n, w, cx); uint64_t M = maxv(w);
            for (uint64_t k = 0; k < n; k++) { uint64_t p = o == 0 ? k : o == 1 ? n - 1 - k : (n & 1 || n % 3 == 0 ? (k * 2) % n + ((n & 1) ? 0 : (k * 2 >= n)) : k ^ (k + 1 < n || (n & 1) == 0 ? 1 : 0)); if (p >= n) p = k; A.set(p, mc::hash(p, w) & M); }
            A.check();
            for (uint64_t k = 0; k < n; k++) for (uint64_t x : {0ull, (unsigned long long)M, (unsigned long long)(~A.v[k] & M)}) { A.set(k, x); uint64_t lo = k < 140 ? 0 : k - 140, hi = std::min(n, k + 140); if (n <= 140) A.check(); else A.check(lo, hi); }
            cx.state(mc::hash(w, n * 3 + o)); A.fin(); }, [=](uint64_t i) { mc::Radix r(i); unsigned o = r.pick(3); uint64_t n = Ls[r.pick(Ls.size())]; return "width " + std::to_string(1 + r.pick(64)) + " length " + std::to_string(n) + " order " + std::to_string(o); }, 120);
    }
    // every pair of (old value, new value) bit for small widths at every alignment
    ex.add("all-values", "widths 1..8: every old value x every new value of an element between two neighbours of all zeros / all ones, at every alignment", 8 * 64 * 4, [=](uint64_t i, mc::Cx &cx) {
        mc::Radix r(i); unsigned nb = r.pick(4), base = r.pick(64), w = 1 + r.pick(8); prep(i); uint64_t M = maxv(w); Arr A(base + 4, w, cx); A.set(base, nb & 1 ? M : 0); A.set(base + 2, nb & 2 ? M : 0);
        for (uint64_t a = 0; a <= M; a++) for (uint64_t b = 0; b <= M; b++) { A.set(base + 1, a); A.set(base + 1, b); A.check(base, base + 3); }
        cx.state(mc::hash(w, base * 4 + nb)); A.fin(); }, [=](uint64_t i) { mc::Radix r(i); unsigned nb = r.pick(4), base = r.pick(64), w = 1 + r.pick(8); return "width " + std::to_string(w) + " element " + std::to_string(base + 1) + " neighbours " + std::to_string(nb); }, 120);
    // single bits: every bit of every width at every alignment
    ex.add("single-bits", "every width, alignment and bit: store a value with that single bit set / clear, neighbours untouched", 64ull * 64, [=](uint64_t i, mc::Cx &cx) {
        unsigned base = i % 64, w = 1 + i / 64; prep(i); Arr A(base + 4, w, cx); uint64_t M = maxv(w);
        for (int nb = 0; nb < 4; nb++) { A.set(base, nb & 1 ? M : 0); A.set(base + 2, nb & 2 ? M : 0); for (unsigned b = 0; b < w; b++) { A.set(base + 1, 1ull << b); A.check(base, base + 3); A.set(base + 1, M ^ (1ull << b)); A.check(base, base + 3); } }
        cx.state(mc::hash(w, base)); A.fin(); }, [=](uint64_t i) { return "width " + std::to_string(1 + i / 64) + " element " + std::to_string(i % 64 + 1); });
    // big arrays: bit positions above 2^31, 2^32, 2^33
    {
        std::vector<unsigned> ws; for (unsigned w = 1; w <= 64; w++) ws.push_back(w);
        unsigned nl = th ? 3 : 2; // total bits just above 2^31.., 2^32.., 2^33..
        ex.add("big", "every width, arrays of a little more than 2^31 and 2^32 (thorough: 2^33) bits: stores around the start, around bits 2^16.., 2^31, 2^32 (2^33) and at the end do not disturb each other", ws.size() * nl, [=](uint64_t i, mc::Cx &cx) {
            unsigned w = ws[i % ws.size()], lg = 31 + i / ws.size(); uint64_t n = (1ull << lg) / w + 200; prep(0); alloc::fill = alloc::DIRTY; flbwt::PackedArray *a; { alloc::On on; a = new flbwt::PackedArray(n, w); }
            uint64_t M = maxv(w); std::vector<uint64_t> idx; for (uint64_t c : {1ull << 15, 1ull << 16, 1ull << 24, 1ull << 30, 1ull << 31, 1ull << 32, 1ull << 33}) for (int d = -3; d <= 3; d++) { uint64_t k = c / w + d; if (k < n) idx.push_back(k); } for (uint64_t k = 0; k < 70; k++) { idx.push_back(k); idx.push_back(n - 1 - k); }
            std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end());
            for (int round = 0; round < 2; round++) { for (uint64_t k : idx) { a->set_value(k, (mc::hash(k, w + round) & M)); cx.transitions()++; } for (uint64_t k : idx) if (a->get_value(k) != (mc::hash(k, w + round) & M)) cx.fail("element %" PRIu64 " of %" PRIu64 " (%u bits) reads 0x%" PRIx64 ", last stored 0x%" PRIx64, k, n, w, a->get_value(k), mc::hash(k, w + round) & M); }
            if (a->get_length() != n) cx.fail("reports length %" PRIu64 ", constructed with %" PRIu64, a->get_length(), n);
            { alloc::On on; delete a; } madvise(alloc::base, 6ULL << 30, MADV_DONTNEED);
            if (alloc::err[0]) cx.fail("%s", alloc::err); cx.state(mc::hash(w, lg)); cx.traces()++; }, [=](uint64_t i) { return "width " + std::to_string(ws[i % ws.size()]) + " bits 2^" + std::to_string(31 + i / ws.size()); }, 120, 1);
    }
    ex.assumptions = {"stored values fit the width", "indexes are below the length"};
    return ex.main();
}

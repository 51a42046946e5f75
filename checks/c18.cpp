// C18: split-integer accessors and the bit-length helper.
#include "inputs.hpp"
#include "mc.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "utility.hpp"

static uint32_t L[8]; static int8_t U8[8]; static int16_t U16[8]; static uint16_t M16[8];
static void setv(int w, int64_t i, int64_t v) { if (w == 40) flbwt::set_40bit_value(L, U8, i, v); else if (w == 48) flbwt::set_48bit_value(L, U16, i, v); else flbwt::set_56bit_value(L, M16, U8, i, v); }
static int64_t getv(int w, int64_t i) { return w == 40 ? flbwt::get_40bit_value(L, U8, i) : w == 48 ? flbwt::get_48bit_value(L, U16, i) : flbwt::get_56bit_value(L, M16, U8, i); }
static unsigned len(uint64_t v) { unsigned b = 0; while (v) { b++; v >>= 1; } return b; }

int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C18"; ex.args(argc, argv); ex.state_bits = 26; ex.counters.push_back("values_checked");
    std::vector<uint64_t> low; // 32-bit and smaller part values: every power of two and its surroundings, sums of two, patterns
    for (unsigned k = 0; k <= 32; k++) for (int d = -2; d <= 2; d++) low.push_back(((1ull << k) + d) & 0xffffffffu);
    for (unsigned k = 0; k < 32; k++) for (unsigned j = 0; j < k; j++) { low.push_back((1ull << k) | (1ull << j)); low.push_back(0xffffffffull ^ (1ull << k) ^ (1ull << j)); }
    for (uint64_t v : {0x5a5a5a5aull, 0xa5a5a5a5ull, 0x01234567ull, 0xfedcba98ull, 0x00ff00ffull, 0x0000ffffull, 0xffff0000ull, 0x80008000ull}) low.push_back(v);
    std::sort(low.begin(), low.end()); low.erase(std::unique(low.begin(), low.end()), low.end());
    for (int wf : {40, 48, 56, 57})
    {
        bool full = wf == 57; int w = full ? 56 : wf;      // 57 stands for: 56 bits, all upper parts, fewer low parts
        uint64_t tops = 1ull << (full ? 24 : std::min(w - 32, 16));
        ex.add("accessors-" + std::to_string(w) + (full ? "-full" : ""), "every upper part (" + std::to_string(w - 32) + " bits" + (full ? ": all 2^24" : w == 56 ? ": every 2^16 pattern spread over the bits" : "") + ") x " + std::to_string(full && !ex.thorough ? (low.size() + 36) / 37 : low.size()) + " low parts, stored and read back with both neighbours holding extreme values; value and complement", tops,
               [=](uint64_t i, mc::Cx &cx) {
                   uint64_t top = w == 56 && !full ? (((i >> 8) << 16) | ((i & 0xff) << 8) | (i & 0xff)) ^ (i & 1 ? 0 : 0x40) : i; bool cheap = full && !ex.thorough; size_t n = 0;
                   for (size_t k = 0; k < low.size(); k += cheap ? 37 : 1)
                   {
                       int64_t v = (int64_t)((top << 32 | low[k]) << (64 - w)) >> (64 - w), edge = (k & 1) ? -1 : 0;
                       for (int c = 0; c < 2; c++, v = ~v)
                       {
                           int at = 1 + (k % 5); setv(w, at - 1, edge); setv(w, at + 1, ~edge); setv(w, at, v);
                           if (getv(w, at) != v) cx.fail("%d-bit accessors: %" PRId64 " stored at %d reads back as %" PRId64, w, v, at, getv(w, at));
                           if (getv(w, at - 1) != edge || getv(w, at + 1) != ~edge) cx.fail("%d-bit accessors: storing %" PRId64 " at %d changes a neighbour", w, v, at);
                           n++;
                       }
                   }
                   cx.state(mc::hash(w, top)); cx.transitions() += n; cx.traces() += n; cx.ctr("values_checked") += n; },
               [=](uint64_t i) { return std::to_string(w) + "-bit, upper part " + std::to_string(i); });
        if (full) continue;
        std::vector<int64_t> edge; int64_t mn = -(1ll << (w - 1)), mx = (1ll << (w - 1)) - 1; for (int d = 0; d < 4; d++) { edge.push_back(mn + d); edge.push_back(mx - d); edge.push_back(d); edge.push_back(-1 - d); edge.push_back((1ll << 31) - 2 + d); edge.push_back((1ll << 32) - 2 + d); edge.push_back(-(1ll << 32) - 2 + d); edge.push_back(-(1ll << 31) - 2 + d); }
        ex.add("histories-" + std::to_string(w), "every sequence of 3 stores of extreme values over 3 elements, all three read after each store", inputs::ipow(edge.size() * 3, 3),
               [=](uint64_t i, mc::Cx &cx) { mc::Radix r(i); int64_t m[5]; for (int k = 0; k < 5; k++) setv(w, k, m[k] = 7 * k); for (int s = 0; s < 3; s++) { unsigned at = 1 + r.pick(3); int64_t v = edge[r.pick(edge.size())]; setv(w, at, m[at] = v); for (int k = 0; k < 5; k++) if (getv(w, k) != m[k]) cx.fail("%d-bit accessors: after store %d of %" PRId64 " at %u, element %d reads %" PRId64 ", must be %" PRId64, w, s, v, at, k, getv(w, k), m[k]); cx.transitions()++; } cx.traces()++; cx.ctr("values_checked") += 3; },
               [=](uint64_t i) { return "case " + std::to_string(i); });
    }
    // index arithmetic: elements above 2^31 and 2^32 (sparse memory)
    ex.add("far-elements", "elements at indexes around 2^8, 2^16, 2^31 and 2^32 of sparse arrays, three widths", 3 * 4 * 7, [=](uint64_t i, mc::Cx &cx) {
        mc::Radix r(i); int w = 40 + 8 * r.pick(3); uint64_t c = ((uint64_t[]){1ull << 8, 1ull << 16, 1ull << 31, 1ull << 32})[r.pick(4)]; int d = (int)r.pick(7) - 3; size_t N = (1ull << 32) + 64;
        auto map = [&](size_t e) { void *p = mmap(0, N * e, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return p; };
        uint32_t *l = (uint32_t *)map(4); void *u = map(2); uint16_t *m = (uint16_t *)map(2);
        auto st = [&](int64_t k, int64_t v) { if (w == 40) flbwt::set_40bit_value(l, (int8_t *)u, k, v); else if (w == 48) flbwt::set_48bit_value(l, (int16_t *)u, k, v); else flbwt::set_56bit_value(l, m, (int8_t *)u, k, v); };
        auto gt = [&](int64_t k) { return w == 40 ? flbwt::get_40bit_value(l, (int8_t *)u, k) : w == 48 ? flbwt::get_48bit_value(l, (int16_t *)u, k) : flbwt::get_56bit_value(l, m, (int8_t *)u, k); };
        int64_t k = c + d, v = -(1ll << (w - 1)) + 12345; st(0, 111); st(1, -2); st(k - 1, 5); st(k + 1, -5); st(k, v);
        if (gt(k) != v || gt(k - 1) != 5 || gt(k + 1) != -5 || gt(0) != 111 || gt(1) != -2) cx.fail("%d-bit accessors: element %" PRId64 " is not independent of its neighbours or of elements 0 and 1", w, k);
        munmap(l, N * 4); munmap(u, N * 2); munmap(m, N * 2); cx.state(mc::hash(w, k)); cx.transitions() += 5; cx.traces()++; }, [=](uint64_t i) { return "case " + std::to_string(i); }, 60, 1);
    ex.add("bit-length", "every 16-bit pattern shifted by every distance 0..48, with low bits zero, one and all ones", 65536, [=](uint64_t i, mc::Cx &cx) {
        for (unsigned s = 0; s <= 48; s++) for (int f = 0; f < 3; f++)
        {
            uint64_t v = (i << s) | (f == 0 ? 0 : f == 1 ? 1 : (1ull << s) - 1); if (!v) continue;
            if (flbwt::position_of_msb(v) != len(v)) cx.fail("the bit length of %" PRIu64 " is given as %u, is %u", v, flbwt::position_of_msb(v), len(v));
            cx.transitions()++; cx.ctr("values_checked")++;
        }
        cx.state(mc::hash(99, i)); cx.traces()++; }, [=](uint64_t i) { return "pattern " + std::to_string(i); });
    ex.add("bit-length-32", "every value below 2^32", 65536, [=](uint64_t i, mc::Cx &cx) { unsigned b = len(i << 16); for (uint64_t k = 0; k < 65536; k++) { uint64_t v = i << 16 | k; if (!v) continue; unsigned want = i ? b : len(v); if (flbwt::position_of_msb(v) != want) cx.fail("the bit length of %" PRIu64 " is given as %u", v, flbwt::position_of_msb(v)); } cx.transitions() += 65536; cx.traces()++; }, [=](uint64_t i) { return "values from " + std::to_string(i << 16); });
    ex.assumptions = {"two's complement, arithmetic right shift (gcc, clang)"};
    return ex.main();
}

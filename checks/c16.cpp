// C16: the five suffix sorters against a naive suffix sort.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "packed_array.hpp"
#include "sais32bit.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "sais64bit.hpp"
#include <numeric>
typedef std::vector<uint32_t> Word;

// arrays that end exactly at an inaccessible page and start behind a canary
struct Guarded
{
    uint8_t *page = nullptr; size_t cap = 0; uint8_t *p = nullptr; size_t n = 0; enum { CAN = 64 };
    void *get(size_t bytes)
    {
        size_t need = ((bytes + CAN + 4095) & ~(size_t)4095) + 4096;
        if (need > cap) { if (page) munmap(page, cap); cap = need * 2; page = (uint8_t *)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (page == MAP_FAILED) { perror("mmap"); _exit(2); } mprotect(page + cap - 4096, 4096, PROT_NONE); }
        p = page + cap - 4096 - bytes; n = bytes; memset(p - CAN, 0xC3, CAN); memset(p, 0xA6, bytes); return p;
    }
    bool ok() const { for (int i = 1; i <= CAN; i++) if (p[-i] != 0xC3) return false; return true; }
};
static Guarded GL, GM, GU, GT;

static const std::vector<uint32_t> &naive(const Word &w)
{
    static Word last; static std::vector<uint32_t> sa; if (w == last && !sa.empty()) return sa; last = w; sa.resize(w.size()); std::iota(sa.begin(), sa.end(), 0);
    if (w.size() <= 300)
        std::sort(sa.begin(), sa.end(), [&](uint32_t a, uint32_t b) { return std::lexicographical_compare(w.begin() + a, w.end(), w.begin() + b, w.end()); });
    else
    { // prefix doubling
        size_t n = w.size(); std::vector<uint32_t> rk(n), t(n); Word s = w; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); for (size_t i = 0; i < n; i++) rk[i] = std::lower_bound(s.begin(), s.end(), w[i]) - s.begin() + 1;
        for (size_t k = 1;; k *= 2) { auto key = [&](uint32_t a) { return std::make_pair(rk[a], a + k < n ? rk[a + k] : 0u); }; if (k == 1 || true) std::sort(sa.begin(), sa.end(), [&](uint32_t a, uint32_t b) { return key(a) < key(b); }); t[sa[0]] = 1; for (size_t i = 1; i < n; i++) t[sa[i]] = t[sa[i - 1]] + (key(sa[i]) != key(sa[i - 1])); rk = t; if (rk[sa[n - 1]] == n) break; }
    }
    return sa;
}
// one call: sorter width W, alphabet k, spare space fs, symbol width cs (cs == W: unpacked recursive form)
static void call(int W, const Word &w, uint64_t k, uint64_t fs, unsigned cs, mc::Cx &cx)
{
    uint64_t n = w.size(); const std::vector<uint32_t> &sa = naive(w); uint64_t N = n + fs; bool raw = cs == (unsigned)W;
    cx.note("sais_%d n=%zu k=%zu fs=%zu cs=%u", W, (size_t)n, (size_t)k, (size_t)fs, cs);
    uint32_t *l = nullptr; void *u = nullptr; uint16_t *m = nullptr; int64_t *q = nullptr; int32_t *d = nullptr; size_t ub = W == 40 || W == 56 ? 1 : 2;
    if (W == 32) d = (int32_t *)GL.get(N * 4); else if (W == 64) q = (int64_t *)GL.get(N * 8); else { l = (uint32_t *)GL.get(N * 4); u = GU.get(N * ub); if (W == 56) m = (uint16_t *)GM.get(N * 2); }
    // input
    static std::vector<uint8_t> before; uint8_t *T = nullptr; size_t tb = 0; static Guarded TL, TM, TU; flbwt::PackedArray *pa = nullptr; void *ta = nullptr, *tm = nullptr, *tu = nullptr;
    if (!raw)
    {
        alloc::Off off; pa = new flbwt::PackedArray(n + 1, cs); pa->set_value(0, cs >= 2 ? 2 : 1); for (uint64_t i = 0; i < n; i++) pa->set_value(i + 1, w[i]);
        tb = ((n + 1) * cs + 63) / 64 * 8; // whole words holding n+1 symbols
        T = (uint8_t *)GT.get(tb); memcpy(T, pa->get_raw_arr_pointer(), tb); delete pa;
    }
    else if (W == 32) { uint32_t *p = (uint32_t *)TL.get(n * 4); for (uint64_t i = 0; i < n; i++) p[i] = w[i]; T = (uint8_t *)p; tb = n * 4; }
    else if (W == 64) { uint64_t *p = (uint64_t *)TL.get(n * 8); for (uint64_t i = 0; i < n; i++) p[i] = w[i]; T = (uint8_t *)p; tb = n * 8; }
    else { uint32_t *p = (uint32_t *)TL.get(n * 4); for (uint64_t i = 0; i < n; i++) p[i] = w[i]; ta = p; tu = TU.get(n * ub); memset(tu, 0, n * ub); if (W == 56) { tm = TM.get(n * 2); memset(tm, 0, n * 2); } tb = n * 4; }
    const uint8_t *Tb = T ? T : (uint8_t *)ta; before.assign(Tb, Tb + tb);
    alloc::reset();
    {
        alloc::On on;
        switch (W)
        {
        case 32: flbwt::sais_32bit(T, d, fs, n, k, cs); break;
        case 40: flbwt::sais_40bit(T, (uint32_t *)ta, (int8_t *)tu, l, (int8_t *)u, fs, n, k, cs); break;
        case 48: flbwt::sais_48bit(T, (uint32_t *)ta, (int16_t *)tu, l, (int16_t *)u, fs, n, k, cs); break;
        case 56: flbwt::sais_56bit(T, (uint32_t *)ta, (uint16_t *)tm, (int8_t *)tu, l, m, (int8_t *)u, fs, n, k, cs); break;
        default: flbwt::sais_64bit(T, q, fs, n, k, cs);
        }
    }
    const char *who = raw ? "unpacked" : "packed";
    for (uint64_t i = 0; i < n; i++)
    {
        int64_t g = W == 32 ? d[i] : W == 64 ? q[i] : W == 40 ? flbwt::get_40bit_value(l, (int8_t *)u, i) : W == 48 ? flbwt::get_48bit_value(l, (int16_t *)u, i) : flbwt::get_56bit_value(l, m, (int8_t *)u, i);
        if (g != (int64_t)sa[i]) cx.fail("%d-bit sorter (%s, %u bits per symbol, k=%" PRIu64 ", spare %" PRIu64 "): entry %" PRIu64 " is %" PRId64 ", must be %u", W, who, cs, k, fs, i, g, sa[i]);
    }
    if (!GL.ok() || (u && !GU.ok()) || (m && !GM.ok())) cx.fail("%d-bit sorter (k=%" PRIu64 ", spare %" PRIu64 "): wrote before the start of the arrays it was given", W, k, fs);
    if (memcmp(before.data(), Tb, tb)) cx.fail("%d-bit sorter: changed its input string", W);
    for (uint64_t i = 0; tu && i < n * ub; i++) if (((uint8_t *)tu)[i]) cx.fail("%d-bit sorter: changed its input string", W);
    for (uint64_t i = 0; tm && i < n; i++) if (((uint16_t *)tm)[i]) cx.fail("%d-bit sorter: changed its input string", W);
    if (alloc::err[0]) cx.fail("%d-bit sorter (k=%" PRIu64 ", spare %" PRIu64 "): %s", W, k, fs, alloc::err);
    cx.transitions() += n; cx.ctr("sorter_calls")++;
}
static unsigned bits(uint64_t v) { unsigned b = 0; while (v) { b++; v >>= 1; } return b ? b : 1; }
static const int WID[] = {32, 40, 48, 56, 64};
// all environments for one word; level 0: few, 1: more, 2: all
static void envs(const Word &w, mc::Cx &cx, int level, uint64_t salt)
{
    uint64_t mx = *std::max_element(w.begin(), w.end()), n = w.size();
    std::vector<uint64_t> ks{mx + 1, mx + 2}; if (level >= 2) { ks.push_back(mx + 3); ks.push_back(mx + 40); } else if (level == 1) ks.push_back(mx + 9);
    for (int W : WID)
        for (uint64_t k : ks)
        {
            std::vector<uint64_t> F{0, k, 2 * k, k - 1, 2 * k - 1}; if (level >= 2) { for (uint64_t f : {k + 1, 2 * k + 1, (uint64_t)1, n, 3 * n + 7, 5 * k + 3}) F.push_back(f); }
            std::sort(F.begin(), F.end()); F.erase(std::unique(F.begin(), F.end()), F.end());
            std::vector<unsigned> C{bits(mx), bits(k - 1), (unsigned)W};
            if (level >= 2) for (unsigned c : {8u, 16u, 31u, 33u, 47u, 63u}) C.push_back(c); else if (level == 1) { C.push_back(bits(mx) + 1 + salt % 7); C.push_back(17 + salt % 46); }
            std::sort(C.begin(), C.end()); C.erase(std::unique(C.begin(), C.end()), C.end());
            for (uint64_t f : F) for (unsigned c : C) { if (c < bits(mx) || c > 64) continue; if (level == 0 && f != 0 && f != 2 * k && c != (unsigned)W) continue; call(W, w, k, f, c, cx); }
        }
    cx.state(mc::hash(w.data(), w.size() * 4)); cx.traces()++;
}
static std::string show(const Word &w) { std::string s = "n=" + std::to_string(w.size()) + " ["; for (size_t i = 0; i < w.size() && i < 200; i++) s += (i ? " " : "") + std::to_string(w[i]); return s + (w.size() > 200 ? "...]" : "]"); }

int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C16"; ex.args(argc, argv); bool th = ex.thorough; ex.counters.push_back("sorter_calls");
    ex.worker_init = []() { alloc::init(2ULL << 30); alloc::fill = 0xFF; };
    auto words = [&](unsigned K, unsigned hi, int level) {
        uint64_t tot = 0; for (unsigned n = 1; n <= hi; n++) tot += inputs::ipow(K, n);
        auto gen = [=](uint64_t i) { unsigned n = 1; while (i >= inputs::ipow(K, n)) { i -= inputs::ipow(K, n); n++; } Word w(n); for (unsigned p = n; p-- > 0;) { w[p] = i % K; i /= K; } return w; };
        ex.add("words" + std::to_string(K) + "-len" + std::to_string(hi) + "-env" + std::to_string(level), "every string of length 1.." + std::to_string(hi) + " over " + std::to_string(K) + " symbols x five sorters x alphabet sizes x spare workspace sizes around k and 2k x symbol widths and the unpacked form (environment set " + std::to_string(level) + ")", tot, [=](uint64_t i, mc::Cx &cx) { envs(gen(i), cx, level, i); }, [=](uint64_t i) { return show(gen(i)); });
    };
    words(2, th ? 12 : 9, 2); words(3, th ? 7 : 6, 2); words(2, th ? 17 : 14, 0); words(3, th ? 11 : 9, 0); words(4, th ? 8 : 7, 0); words(5, th ? 7 : 6, 0);
    for (unsigned K : {2u, 3u}) for (unsigned n : {K == 2 ? (th ? 9u : 7u) : (th ? 6u : 4u)})
        ex.add("symbol-widths" + std::to_string(K), "every string of length " + std::to_string(n) + " over " + std::to_string(K) + " symbols x every symbol width 1..64 x five sorters x two spare sizes", inputs::ipow(K, n) * 64, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); unsigned c = 1 + r.pick(64); Word w(n); for (auto &x : w) x = r.pick(K); uint64_t mx = *std::max_element(w.begin(), w.end()); if (c < bits(mx)) return;
            for (int W : WID) for (uint64_t f : {(uint64_t)0, 2 * (mx + 1)}) call(W, w, mx + 1, f, c, cx); cx.state(mc::hash(w.data(), w.size() * 4, c)); cx.traces()++; }, [=](uint64_t i) { mc::Radix r(i); unsigned c = 1 + r.pick(64); Word w(n); for (auto &x : w) x = r.pick(K); return "width " + std::to_string(c) + " " + show(w); });
    auto ord = [&](unsigned n, int level) { auto v = inputs::weak_orders(n); ex.add("orders" + std::to_string(n) + "-env" + std::to_string(level), "every string of this length up to order-isomorphism (so every alphabet size)", v->size() / n, [=](uint64_t i, mc::Cx &cx) { Word w(v->begin() + i * n, v->begin() + (i + 1) * n); envs(w, cx, level, i); }, [=](uint64_t i) { return show(Word(v->begin() + i * n, v->begin() + (i + 1) * n)); }); };
    ord(5, 2); ord(6, 1); ord(7, 0); if (th) ord(8, 0);
    // structured, including deep recursion and large alphabets
    for (auto &s : inputs::structured(th ? 1 : 0))
    {
        if (s.size > 40000) continue;
        bool big = s.name.find("large") != std::string::npos || s.name.find("64k") != std::string::npos || s.name.find("medium") != std::string::npos; if (big && !th) continue;
        ex.add(s.name, s.rule + " (byte values as symbols)", s.size, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i, b); if (b.size() > 20000) return; envs(Word(b.begin(), b.end()), cx, big ? 0 : b.size() > 600 ? 0 : 1, i); }, [=](uint64_t i) { return inputs::show(s, i); }, 240, s.chunk);
    }
    // long strings: indexes and counts beyond 16 (thorough: 21) bits
    {
        std::vector<size_t> L = th ? std::vector<size_t>{65536, 65537, 131073, 300000, 2200000} : std::vector<size_t>{65537, 131073, 200000};
        ex.add("long", "base words of 65536 and more symbols x five sorters x packed and unpacked x two spare sizes", L.size() * 6, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); size_t n = L[r.pick(L.size())]; static mc::Bytes b; inputs::base_word(((unsigned[]){1, 5, 6, 9, 11, 14})[r.pick(6)], n, b); Word w(b.begin(), b.end()); uint64_t k = *std::max_element(w.begin(), w.end()) + 1;
            for (int W : WID) for (uint64_t f : {(uint64_t)0, 2 * k}) for (unsigned c : {bits(k - 1), (unsigned)W}) call(W, w, k, f, c, cx);
            cx.state(mc::hash(w.data(), w.size() * 4)); cx.traces()++; }, [=](uint64_t i) { return "case " + std::to_string(i); }, 600, 1);
    }
    // alphabets around powers of two: permutations, ramps and repeated ramps with up to 70000 symbols
    {
        std::vector<uint32_t> Ks{15, 16, 17, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
        ex.add("alphabets", "alphabets of around 2^4 .. 2^16 symbols: ascending, descending, zigzag, bit-reversed, and each of them twice, with and without final zero", Ks.size() * 4 * 2 * 2 * 5, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); int W = WID[r.pick(5)]; unsigned z = r.pick(2), tw = r.pick(2), o = r.pick(4); uint32_t K = Ks[r.pick(Ks.size())]; Word w; for (uint32_t k = 0; k < K; k++) w.push_back(o == 0 ? k : o == 1 ? K - 1 - k : o == 2 ? (k & 1 ? k / 2 : K - 1 - k / 2) : (uint32_t)((uint64_t)k * 40503 % K)); if (tw) { Word c = w; w.insert(w.end(), c.begin(), c.end()); } if (z) w.push_back(0);
            uint64_t mx = *std::max_element(w.begin(), w.end()), k = mx + 1; for (uint64_t f : {(uint64_t)0, k, 2 * k}) for (unsigned c : {bits(mx), 33u + W % 7, (unsigned)W}) call(W, w, k, f, c, cx);
            cx.state(mc::hash(w.data(), w.size() * 4, W)); cx.traces()++; }, [=](uint64_t i) { return "case " + std::to_string(i); }, 240, 4);
    }
    ex.assumptions = {"packed strings are laid out as PackedArray lays them out, symbol i of the string at element i+1", "unpacked input is an array of the sorter's own unsigned parts"};
    return ex.main();
}

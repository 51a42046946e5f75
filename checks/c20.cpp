// C20: work done (basic blocks of the library executed + bytes moved) as a string of one family grows.
#define MC_ALLOC_IMPL
#include <cmath>
#include "alloc.hpp"
#include "inputs.hpp"
#include "lib_call.hpp"
uint64_t flbwt_verify_base_offset = 0;
#include <csetjmp>
static uint64_t steps = 0, budget = 0; static bool counting = false; static jmp_buf enough;
extern "C" {
// a run that has used up its budget is abandoned (its memory belongs to the arena)
void __sanitizer_cov_trace_pc() { if (++steps > budget && counting) { counting = false; alloc::on = false; longjmp(enough, 1); } }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *a, const void *b, size_t n) { if (counting) steps += n / 8; return __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, size_t n) { if (counting) steps += n / 8; return __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int c, size_t n) { if (counting) steps += n / 8; return __real_memset(a, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (counting) steps += n / 8; return __real_memcmp(a, b, n); }
}
typedef std::function<void(uint32_t, mc::Bytes &)> Fam;    // string of the family with about this many bytes
static const double SLACK = 1.15; static const uint64_t FIXED = 500000;
static bool show_all = false;

static const uint64_t CAP = 5000, CAP0 = 100000000;     // first sizes: beyond this nothing is linear
enum { RAN, SKIP, OVER };
static int work(mc::Bytes &T, uint64_t off, uint64_t most, uint64_t &w, mc::Cx &cx)
{
    size_t n = T.size(); T.push_back(0); flbwt_verify_base_offset = off; alloc::reset(); alloc::fill = alloc::DIRTY; alloc::realloc_mode = 1;
    static flbwt::BWT_result *r; r = nullptr; steps = 0; budget = most;
    if (setjmp(enough)) { w = steps; return OVER; }
    try { alloc::On on; counting = true; r = flbwt::bwt_string(T.data(), n, false); counting = false; } catch (std::exception &) { counting = false; }
    w = steps; if (!r) return SKIP;        // other properties' business
    delete[] r->BWT; free(r); cx.state(mc::hash(T.data(), n, off)); cx.outcome(w); cx.transitions() += w; cx.traces()++; return RAN;
}
static void family(const Fam &f, const std::vector<uint32_t> &sizes, uint64_t off, mc::Cx &cx, double slack = SLACK)
{
    static mc::Bytes T; std::vector<double> w, n; double first = 0, worst = 0;
    for (size_t i = 0; i < sizes.size(); i++)
    {
        f(sizes[i], T); double m = T.size(); if (i && m <= n.back()) continue;
        double allow = first > 0 ? first * slack * (m - n.back()) + FIXED : CAP * m + CAP0; uint64_t x; cx.note("size %u", sizes[i]);
        int how = work(T, off, (uint64_t)(allow + (first > 0 ? w.back() : 0)), x, cx); if (how == SKIP) return;
        if (how == OVER && first == 0) cx.fail("a string of %.0f bytes takes more than %" PRIu64 " steps per byte", m, CAP);
        if (how == OVER) cx.fail("further bytes cost more: %.1f steps per byte between n = %.0f and %.0f, but more than %.1f between %.0f and %.0f (allowed: %d percent more, plus %" PRIu64 " in all)", first, n[0], n[1], ((double)x - w.back()) / (m - n.back()), n.back(), m, (int)(slack * 100 - 99.5), FIXED);
        if (!w.empty()) { if (first == 0) first = (x - w.back()) / (m - n.back()); else worst = std::max(worst, (x - w.back()) / allow); }
        w.push_back(x); n.push_back(m);
    }
    if (show_all) { fprintf(stderr, "%.3f first %.1f", worst, first); for (size_t i = 1; i < w.size(); i++) fprintf(stderr, " %.1f", (w[i] - w[i - 1]) / (n[i] - n[i - 1])); fprintf(stderr, "\n"); }
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C20"; ex.args(argc, argv); bool th = ex.thorough; show_all = ex.opts.count("show"); ex.worker_init = [=]() { alloc::init(th ? 8ULL << 30 : 2ULL << 30); };
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull}; auto WW = std::make_shared<std::vector<uint64_t>>(W);
    std::vector<unsigned> bw; for (unsigned b = 0; b < inputs::n_bases(); b++) if (b != 11) bw.push_back(b);
    std::vector<uint32_t> L = th ? std::vector<uint32_t>{40000, 200000, 2000000, 30000000, 120000000} : std::vector<uint32_t>{40000, 200000, 2000000, 24000000}, M = th ? std::vector<uint32_t>{80000, 300000, 2000000, 16000000} : std::vector<uint32_t>{80000, 300000, 4000000}, Sh = th ? std::vector<uint32_t>{20000, 200000, 2000000} : std::vector<uint32_t>{20000, 100000, 500000};
    auto sz = [](const std::vector<uint32_t> &v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ", ") + std::to_string(x); return s; };
    ex.add("base-words-long", "15 base words with few distinct pieces at lengths " + sz(L), bw.size(), [=](uint64_t i, mc::Cx &cx) { unsigned b = bw[i]; family([=](uint32_t n, mc::Bytes &o) { inputs::base_word(b, n, o); }, L, 0, cx); }, [=](uint64_t i) { return "base word " + std::to_string(bw[i]); }, 1800, 1);
    ex.add("base-words*widths", "15 base words x four position origins (40, 48, 56, 64 bit) at lengths " + sz(M), bw.size() * 4, [=](uint64_t i, mc::Cx &cx) { unsigned b = bw[i / 4]; family([=](uint32_t n, mc::Bytes &o) { inputs::base_word(b, n, o); }, M, (*WW)[1 + i % 4], cx); }, [=](uint64_t i) { return "base word " + std::to_string(bw[i / 4]) + " origin " + std::to_string((*WW)[1 + i % 4]); }, 900, 1);
    // x u^k y
    {
        const mc::Bytes A{'a', 'b', 'c'}; auto us = std::make_shared<std::vector<mc::Bytes>>(); for (unsigned n = 1; n <= (th ? 5u : 4u); n++) for (uint64_t i = 0; i < inputs::ipow(3, n); i++) { mc::Bytes u(n); uint64_t v = i; for (auto &x : u) { x = A[v % 3]; v /= 3; } us->push_back(u); }
        auto ext = std::make_shared<std::vector<mc::Bytes>>(std::vector<mc::Bytes>{{}, {'a'}, {'b'}, {'c'}, {'c', 'a'}}); uint64_t q = th ? 25 : 5;
        auto fam = [=](uint64_t i) { const mc::Bytes &u = (*us)[i / q], &x = (*ext)[i % q % 5], &y = (*ext)[th ? i % q / 5 : (i * 2 + i / q) % 5]; return Fam([=](uint32_t n, mc::Bytes &o) { o = x; while (o.size() < n) o.insert(o.end(), u.begin(), u.end()); o.insert(o.end(), y.begin(), y.end()); }); };
        ex.add("periodic", "x u^k y for every word u of length 1..4 (thorough 5) over 3 letters and surroundings x, y, growing k; the five widths in turn; lengths " + sz(Sh), us->size() * q, [=](uint64_t i, mc::Cx &cx) { family(fam(i), Sh, (*WW)[i % 5], cx); }, [=](uint64_t i) { mc::Bytes o; fam(i)(30, o); return "origin " + std::to_string((*WW)[i % 5]) + " begins " + mc::show_bytes(o); }, 300);
    }
    // runs: each exponent fixed (1) or growing
    for (unsigned r = 1; r <= (th ? 5u : 4u); r++)
    {
        uint64_t pats = 3 * inputs::ipow(2, r - 1);
        auto fam = [=](uint64_t i) { uint64_t p = i % pats; unsigned grow = 1 + i / pats; return Fam([=](uint32_t n, mc::Bytes &o) { unsigned g = __builtin_popcount(grow); o.clear(); mc::Radix d(p); unsigned c = d.pick(3); for (unsigned j = 0; j < r; j++) { if (j) { unsigned t = d.pick(2); c = t + (t >= c); } o.insert(o.end(), grow >> j & 1 ? n / g : 1, 'a' + c); } }); };
        ex.add("runs" + std::to_string(r), "c1^e1..c" + std::to_string(r) + "^e" + std::to_string(r) + " for every letter pattern over 3 letters, every non-empty set of growing exponents, lengths " + sz(Sh), pats * ((1u << r) - 1), [=](uint64_t i, mc::Cx &cx) { family(fam(i), Sh, (*WW)[i % 5], cx); }, [=](uint64_t i) { mc::Bytes o; fam(i)(30, o); return "begins " + mc::show_bytes(o); }, 300);
    }
    // long pieces that agree for a long time, and nested repetition
    {
        auto fam = [=](uint64_t i) { return Fam([=](uint32_t n, mc::Bytes &o) { mc::Radix d(i); unsigned lead = d.pick(2), k[3] = {(unsigned)d.pick(5), (unsigned)d.pick(5), (unsigned)d.pick(5)}; o.clear(); if (lead) o.push_back('b'); for (unsigned x : k) { o.push_back('a'); o.insert(o.end(), n / 3 + (x == 3), 'c'); if (x == 1 || x == 2) o.insert(o.end(), x, 'b'); if (x == 4) o.insert(o.end(), 2, 'a'); } o.push_back('a'); o.push_back('b'); }); };
        ex.add("twins", "three pieces out of a c^L, a c^L b, a c^L b b, a c^(L+1), a c^L a a, growing L, lengths " + sz(Sh), 250, [=](uint64_t i, mc::Cx &cx) { family(fam(i), Sh, (*WW)[i % 5], cx); }, [=](uint64_t i) { mc::Bytes o; fam(i)(30, o); return "at L=10: " + mc::show_bytes(o); }, 300);
        auto ws = std::make_shared<std::vector<mc::Bytes>>(); for (unsigned n = 1; n <= 2; n++) for (uint64_t i = 0; i < inputs::ipow(2, n); i++) { mc::Bytes u(n); for (unsigned j = 0; j < n; j++) u[j] = 'a' + (i >> j & 1); ws->push_back(u); }
        auto fam2 = [=](uint64_t i) { return Fam([=](uint32_t n, mc::Bytes &o) { mc::Radix d(i); const mc::Bytes &X = (*ws)[d.pick(6)], &Y = (*ws)[d.pick(6)]; unsigned grow = 1 + d.pick(7); bool z = d.pick(2); unsigned g = __builtin_popcount(grow); double s = std::pow((double)n / (2 * X.size() + 2 * Y.size()), 1.0 / g); uint32_t e[3]; for (int j = 0; j < 3; j++) e[j] = grow >> j & 1 ? std::max(1.0, s) : 2; if (!(grow & 4)) e[2] = 2;
            o.clear(); for (uint32_t c = 0; c < e[2]; c++) { for (uint32_t a = 0; a < e[0]; a++) o.insert(o.end(), X.begin(), X.end()); for (uint32_t b = 0; b < e[1]; b++) o.insert(o.end(), Y.begin(), Y.end()); if (z) o.push_back('c'); } }); };
        ex.add("grammar", "(X^i Y^j Z)^k for all words X, Y of length 1..2 over 2 letters, Z empty or c, every non-empty set of growing exponents, lengths " + sz(Sh), 6 * 6 * 7 * 2, [=](uint64_t i, mc::Cx &cx) { family(fam2(i), Sh, (*WW)[i % 5], cx); }, [=](uint64_t i) { mc::Bytes o; fam2(i)(60, o); return "small member: " + mc::show_bytes(o); }, 300);
        auto fam3 = [=](uint64_t i) { return Fam([=](uint32_t n, mc::Bytes &o) { mc::Radix d(i); uint32_t N = 1u << d.pick(15); unsigned ord = d.pick(3); mc::Bytes p; for (uint32_t k = 0; k < N; k++) { mc::Bytes x = inputs::sparse_piece(ord == 0 ? k : ord == 1 ? N - 1 - k : (uint32_t)((uint64_t)k * 40503 % N)); p.insert(p.end(), x.begin(), x.end()); } o.clear(); while (o.size() < n || o.size() < 2 * p.size()) o.insert(o.end(), p.begin(), p.end()); }); };
        ex.add("many-names-repeated", "a list of N distinct pieces (N = 1, 2, 4 .. 16384, three orders), repeated more and more often, lengths " + sz(M), 15 * 3, [=](uint64_t i, mc::Cx &cx) { family(fam3(i), M, (*WW)[i % 5], cx); }, [=](uint64_t i) { return "N = " + std::to_string(1u << i % 15) + " order " + std::to_string(i / 15); }, 900, 1);
    }
    // the number of distinct pieces grows, up to half of the dictionary's slots
    {
        const std::vector<uint32_t> pads{0, 2, 9, 40};
        auto fam = [=](uint64_t i) { return Fam([=](uint32_t N, mc::Bytes &o) { mc::Radix d(i); unsigned kind = d.pick(4), rep = d.pick(2), pad = pads[d.pick(4)]; mc::Bytes p; if (kind == 0) inputs::dense_pieces(N, 100, p); else for (uint32_t k = 0; k < N; k++) { mc::Bytes x = inputs::sparse_piece(kind == 1 ? k : kind == 2 ? N - 1 - k : (uint32_t)((uint64_t)k * 40503 % N)); p.push_back(0); p.insert(p.end(), pad, 255); p.insert(p.end(), x.begin() + 1, x.end()); } o = p; for (unsigned k = 0; k < rep * 9; k++) o.insert(o.end(), p.begin(), p.end()); }); };
        std::vector<uint32_t> NN = th ? std::vector<uint32_t>{1000, 2000, 4000, 8000, 16000, 32000} : std::vector<uint32_t>{1000, 4000, 8000, 32000};
        ex.add("more-names", "N different pieces, with a common beginning of 1, 3, 10 or 41 bytes, once or ten times, four arrangements, growing N: " + sz(NN), 32, [=](uint64_t i, mc::Cx &cx) { family(fam(i), NN, (*WW)[i % 5], cx, 1.6); }, [=](uint64_t i) { return "arrangement " + std::to_string(i % 4) + (i / 4 % 2 ? " ten times" : " once") + " pad " + std::to_string(pads[i / 8]); }, 300, 1);
    }
    ex.assumptions = {"the string is followed by one zero byte", "work is counted as basic blocks of the library executed plus bytes moved or cleared in bulk / 8; system time is not part of it"};
    return ex.main();
}

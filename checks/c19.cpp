// C19: peak of the heap in use, from the allocation ledger, against a bound computed from a naive decomposition.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "ref.hpp"
#include "lib_call.hpp"
#include <unordered_set>
uint64_t flbwt_verify_base_offset = 0;

struct Dec { uint64_t n, N, U, E; };
static Dec decompose(const uint8_t *T, size_t n)
{
    Dec d{n, 0, 0, 0}; static std::unordered_set<uint64_t> seen; seen.clear(); if (seen.bucket_count() > 100000) std::unordered_set<uint64_t>().swap(seen);
    // leftmost S positions from the right; the piece is T[p..q] inclusive, q the start of the next one (or the zero byte behind the end)
    bool s = false; size_t q = n, p0 = n;
    for (size_t i = n - 1; i-- > 0;)
    {
        bool si = T[i] < T[i + 1] ? true : T[i] > T[i + 1] ? false : s;
        if (!si && s) { size_t p = i + 1, len = q - p + 1; d.N++; if (seen.insert(mc::hash(T + p, len)).second) { d.U++; d.E += len; } q = p0 = p; }
        s = si;
    }
    d.E += p0 + 1; return d;
}
static unsigned bits(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
static const uint64_t SLOTS = 67777, BLOCK = 600, REC = 64;
struct Bound { uint64_t bytes; unsigned w, P; };
static Bound bound(const Dec &d, uint64_t off)
{
    uint64_t over = std::min(d.U, SLOTS) * BLOCK + d.U * REC; Bound b; b.w = bits(d.E + over + off + 1024); b.P = b.w < 32 ? 4 : b.w < 40 ? 5 : b.w < 48 ? 6 : b.w < 56 ? 7 : 8;
    double q = b.w / 8.0, core = d.E + std::max(d.n + d.N * q, d.N * (b.P + q)); b.bytes = (uint64_t)(core * 1.1) + over + (off ? 10u : 5u) * 1000000ull; return b;
}
static bool show_all = false;
static void one(mc::Bytes &T, uint64_t off, bool own, mc::Cx &cx)
{
    size_t n = T.size(); T.push_back(0); Dec d = decompose(T.data(), n); Bound b = bound(d, off);
    flbwt_verify_base_offset = off; alloc::reset(); alloc::fill = alloc::DIRTY; alloc::realloc_mode = 1; uint8_t *t = T.data();
    if (own) { alloc::On on; t = (uint8_t *)malloc(n + 1); if (!t) { fprintf(stderr, "arena too small\n"); _exit(2); } memcpy(t, T.data(), n + 1); }
    flbwt::BWT_result *r = nullptr; try { alloc::On on; r = flbwt::bwt_string(t, n, own); } catch (std::exception &) {}
    if (!r) return;         // other properties' business
    uint64_t pk = alloc::peak; delete[] r->BWT; free(r);
    if (show_all) fprintf(stderr, "n %zu N %" PRIu64 " U %" PRIu64 " E %" PRIu64 " w %u own %d peak %" PRIu64 " bound %" PRIu64 " %.3f\n", n, d.N, d.U, d.E, b.w, own, pk, b.bytes, (double)pk / b.bytes);
    if (pk > b.bytes) cx.fail("%" PRIu64 " bytes of heap were in use at once, the bound is %" PRIu64 " (input owned %d, n %zu, pieces %" PRIu64 ", distinct %" PRIu64 " with %" PRIu64 " bytes, position width %u)", pk, b.bytes, own, n, d.N, d.U, d.E, b.w);
    cx.state(mc::hash(T.data(), n, off * 2 + own)); cx.outcome(pk); cx.transitions() += alloc::reqs; cx.traces()++; cx.ctr("bytes_transformed") += n;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C19"; ex.args(argc, argv); ex.counters.push_back("bytes_transformed"); bool th = ex.thorough; show_all = ex.opts.count("show");
    ex.worker_init = [=]() { alloc::init(th ? 8ULL << 30 : 2ULL << 30); };
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull}; auto WW = std::make_shared<std::vector<uint64_t>>(W);
    // long inputs first: here the constant part does not matter
    std::vector<uint32_t> big = th ? std::vector<uint32_t>{8000000, 40000000, 100000000} : std::vector<uint32_t>{24000000};
    uint64_t nb = inputs::n_bases();
    ex.add("long-base-words", "16 base words x both ownership modes x lengths", nb * 2 * big.size(), [=](uint64_t i, mc::Cx &cx) { static mc::Bytes T; inputs::base_word(i / 2 % nb, big[i / 2 / nb], T); one(T, 0, i & 1, cx); },
           [=](uint64_t i) { return "base " + std::to_string(i / 2 % nb) + " n " + std::to_string(big[i / 2 / nb]) + " owned " + std::to_string(i & 1); }, 600, 1);
    uint32_t bw = th ? 24000000 : 9000000; std::vector<unsigned> wb{0, 1, 5, 9, 13, 14};
    ex.add("long-base-words*widths", "six base words x four position origins (40, 48, 56, 64 bit) x both ownership modes", wb.size() * 4 * 2, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes T; mc::Radix d(i); bool own = d.pick(2); uint64_t off = (*WW)[1 + d.pick(4)]; inputs::base_word(wb[d.v], bw, T); one(T, off, own, cx); },
           [=](uint64_t i) { mc::Radix d(i); bool own = d.pick(2); uint64_t off = (*WW)[1 + d.pick(4)]; return "base " + std::to_string(wb[d.v]) + " owned " + std::to_string(own) + " origin " + std::to_string(off); }, 600, 1);
    std::vector<uint32_t> Ns = th ? std::vector<uint32_t>{100000, 1000000, 1800000} : std::vector<uint32_t>{30000, 100000, 500000};
    for (auto &s : {inputs::names_dense(Ns, "long", 600, 1), inputs::names_sparse(th ? std::vector<uint32_t>{30000, 300000, 2000000} : std::vector<uint32_t>{30000, 300000}, "long", 600, 1)})
        ex.add(s.name, s.rule + ", both ownership modes", s.size * 2, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes T; s.gen(i / 2, T); one(T, 0, i & 1, cx); }, [=](uint64_t i) { return "owned " + std::to_string(i & 1) + " " + inputs::show(s, i / 2); }, s.timeout, s.chunk);
    // many names, many occurrences, pieces of different length: the queues weigh more than the suffix array or less
    std::vector<uint32_t> NN{16, 512, 4096, 65536}, pads{0, 1, 3, 7, 15}; uint32_t mn = th ? 100000000 : 40000000;
    auto many = [=](uint64_t i, mc::Bytes &o) { mc::Radix d(i); uint32_t N = NN[d.pick(NN.size())], pad = pads[d.pick(pads.size())]; mc::Bytes p; for (uint32_t k = 0; k < N; k++) { mc::Bytes x = inputs::sparse_piece(k * 7 + 1); p.push_back(0); p.insert(p.end(), pad, 255); p.insert(p.end(), x.begin() + 1, x.end()); } o.clear(); while (o.size() < mn) o.insert(o.end(), p.begin(), p.end()); };
    ex.add("many-names-long", "N distinct pieces (16 .. 65536) of 3 to 19 bytes, the list repeated up to " + std::to_string(mn) + " bytes, both ownership modes", NN.size() * pads.size() * 2, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes T; many(i / 2, T); one(T, 0, i & 1, cx); }, [=](uint64_t i) { mc::Radix d(i / 2); uint32_t N = NN[d.pick(NN.size())]; return "N " + std::to_string(N) + " pad " + std::to_string(pads[d.v]) + " owned " + std::to_string(i & 1); }, 600, 1);
    std::vector<inputs::Space> sp = inputs::small(th ? 1 : 0); for (auto &s : inputs::structured(th ? 1 : 0)) sp.push_back(s);
    if (!th) { sp.push_back(inputs::twins({70000}, "long", 120, 8)); sp.push_back(inputs::sweep({{1500, 1545}, {65530, 65540}}, "medium", 120, 4)); }
    for (auto &s : sp)
    {
        if (s.size > 200000) continue;
        ex.add(s.name + "*peak", s.rule + ", position origins of the five widths and ownership modes in turn", s.size, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes T; s.gen(i, T); uint64_t k = i / 2 % 8; one(T, k < 4 ? 0 : (*WW)[k - 3], i & 1, cx); }, [=](uint64_t i) { return "owned " + std::to_string(i & 1) + " turn " + std::to_string(i / 2 % 8) + " " + inputs::show(s, i); }, s.timeout, s.chunk);
    }
    ex.assumptions = {"the string is followed by one zero byte", "heap in use is what was asked for and not released; what the C library adds per block and a moving realloc's short double use are not counted"};
    return ex.main();
}

// C08: every execution under AddressSanitizer, the caller's string in a heap block of exactly n+1 bytes.
#include "inputs.hpp"
#include "ref.hpp"
#include "flbwt.hpp"
#include <exception>
uint64_t flbwt_verify_base_offset = 0;

static void one(const mc::Bytes &in, uint64_t off, bool own, mc::Cx &cx)
{
    size_t n = in.size(); uint8_t *T = (uint8_t *)malloc(n + 1); memcpy(T, in.data(), n); T[n] = 0; flbwt_verify_base_offset = off;
    cx.note("bwt_string, free_T %d", own);
    flbwt::BWT_result *r = nullptr;
    try { r = flbwt::bwt_string(T, n, own); } catch (std::exception &x) { cx.outcome(1); if (!own) free(T); return; }
    if (!own) free(T);
    uint64_t h = mc::hash(r->BWT, n + 1 < 2 ? 1 : r->last, r->last); // touches the rows, too
    for (size_t i = 0; i <= n; i++) h += r->BWT[i];
    delete[] r->BWT; free(r);
    cx.outcome(h); cx.state(mc::hash(in.data(), n, off)); cx.transitions() += n + 1; cx.traces()++;
}
static void file(const mc::Bytes &in, uint64_t off, const std::string &dir, mc::Cx &cx)
{
    std::string a = dir + "/" + std::to_string(getpid()) + ".in", b = dir + "/" + std::to_string(getpid()) + ".out"; flbwt_verify_base_offset = off;
    FILE *f = fopen(a.c_str(), "w"); if (!f) { perror("scratch"); _exit(2); } fwrite(in.data(), 1, in.size(), f); fclose(f);
    cx.note("bwt_file");
    try { flbwt::bwt_file(a.c_str(), b.c_str()); } catch (std::exception &x) { cx.outcome(2); }
    unlink(a.c_str()); unlink(b.c_str()); cx.state(mc::hash(in.data(), in.size(), off + 1)); cx.transitions() += in.size() + 1; cx.traces()++;
}
// few different pieces, great length
static inputs::Space few(std::vector<uint32_t> ns)
{
    static const unsigned bs[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 14};
    return inputs::mk("sweep-large-few", "prefixes of 10 base words with few different pieces (constant, periodic, morphic) at " + std::to_string(ns.size()) + " lengths", ns.size() * 10, [=](uint64_t i, mc::Bytes &o) { inputs::base_word(bs[i % 10], ns[i / 10], o); }, 120, 2);
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C08"; ex.args(argc, argv); bool th = ex.thorough;
    // origins in each of the five widths; the first is the library's own
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull};
    auto WW = std::make_shared<std::vector<uint64_t>>(W); std::vector<inputs::Space> sp = inputs::small(1), st = inputs::structured(th ? 1 : 0); std::string dir = ex.workdir;
    // AddressSanitizer's realloc always moves: inputs with tens of thousands of different pieces cost quadratic copying
    auto slow = [](const inputs::Space &s) { return s.name == "sweep-large" || (s.name.find("names-") == 0 && s.name.find("large") != std::string::npos); };
    for (auto &s : st) if (!slow(s)) sp.push_back(s);
    if (!th) for (auto &s : inputs::structured(1)) if (!slow(s) && s.name.find("medium") == std::string::npos && s.size <= 11000 && s.name.find("names-") != 0 && s.name != "sweep-thresholds") { sp.push_back(s); sp.back().name += "+"; }
    sp.push_back(few({65534, 65535, 65536, 131068, 131069, 131070, 131071, 131072}));
    std::vector<inputs::Space> fs{inputs::all_bytes(1), inputs::words({'a', 'b'}, 1, th ? 10 : 8), inputs::words({0, 255}, 1, 6), inputs::words({0, 1, 255}, 1, th ? 7 : 5), inputs::orders(4, 2), inputs::sweep({{4094, 4098}}, "file", 120, 4), few({131072, 200000})};
    for (auto &s : fs)
        ex.add(s.name + "*asan-file", s.rule + ", as a file through bwt_file, x " + std::to_string(W.size()) + " position origins", s.size * W.size() + (s.name == "allbytes-len1"),
               [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; if (i / W.size() >= s.size) b.clear(); else s.gen(i / W.size(), b); file(b, (*WW)[i % WW->size()], dir, cx); },
               [=](uint64_t i) { return i / W.size() >= s.size ? std::string("empty file") : "file, origin " + std::to_string((*WW)[i % WW->size()]) + " " + inputs::show(s, i / W.size()); }, 120, s.chunk);
    for (auto &s : sp)
    {
        bool big = s.name.find("large") != std::string::npos || s.name.find("64k") != std::string::npos || s.name.find("medium") != std::string::npos; uint64_t nw = s.size > (th ? 60000 : 10000) || big ? 1 : W.size();
        if (s.size > (th ? 500000 : 30000)) continue;
        ex.add(s.name + "*asan", s.rule + ", x " + std::to_string(nw) + " position origins, free_T alternating", s.size * nw,
               [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i / nw, b); one(b, (*WW)[i % nw], (i / nw + i % nw) & 1, cx); },
               [=](uint64_t i) { return "origin " + std::to_string((*WW)[i % nw]) + " " + inputs::show(s, i / nw); }, s.timeout * 2, s.chunk);
    }
    ex.assumptions = {"the string is followed by one zero byte", "AddressSanitizer sees every access the compiled sources make except jumps over its red zones into another live block"};
    return ex.main();
}

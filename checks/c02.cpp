// C02: every position magnitude. The hook moves the origin of positions, so that small inputs run
// with positions around every power of two and through all five integer widths.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "ref.hpp"
#include "lib_call.hpp"
uint64_t flbwt_verify_base_offset = 0;

static std::vector<mc::Bytes> probes(bool more)
{
    auto S = [](const char *s) { return mc::Bytes(s, s + strlen(s)); };
    std::vector<mc::Bytes> v{S("mississippi"), S("a"), S("ba"), S("abracadabra"), mc::Bytes{0, 255, 0, 255, 1, 0, 254, 255}, S("cabcabcab"), mc::Bytes(70, 'x')};
    mc::Bytes b; inputs::base_word(5, 233, b); v.push_back(b); inputs::base_word(11, 300, b); v.push_back(b); inputs::base_word(9, 600, b); v.push_back(b);
    inputs::base_word(1, 2600, b); v.push_back(b);        // queues of more than one block
    inputs::base_word(12, 3000, b); v.push_back(b);
    b.clear(); for (int i = 0; i < 4; i++) for (char c : std::string("bxaxaxxbyy")) b.push_back(c); v.push_back(b);
    if (more) { inputs::base_word(8, 5000, b); v.push_back(b); inputs::base_word(14, 4000, b); v.push_back(b); inputs::base_word(13, 9000, b); v.push_back(b); b.clear(); b.insert(b.end(), 2500, 'b'); b.insert(b.end(), 2500, 'a'); b.insert(b.end(), 300, 'c'); v.push_back(b); }
    return v;
}
static void one(const mc::Bytes &in, uint64_t off, mc::Cx &cx, uint64_t salt)
{
    static mc::Bytes T; T = in; size_t n = T.size(); T.push_back(0);
    alloc::reset(); alloc::fill = (salt & 1) ? 0xFF : 0x5A; alloc::realloc_mode = n > 3000 ? 1 : 2; flbwt_verify_base_offset = off;
    std::string e = lib::run_and_check(T.data(), n, cx);
    if (!e.empty()) cx.fail("positions from about %" PRIu64 " (0x%" PRIx64 ") on: %s", off, off, e.c_str());
    if (alloc::err[0]) cx.fail("positions from about 0x%" PRIx64 " on: %s", off, alloc::err);
    if (alloc::live) cx.fail("positions from about 0x%" PRIx64 " on: %" PRIu64 " blocks are still allocated", off, alloc::live);
    cx.state(mc::hash(T.data(), n, off)); cx.transitions() += n + 1; cx.traces()++;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C02"; ex.args(argc, argv);
    ex.worker_init = []() { alloc::init(1ULL << 30); };
    bool th = ex.thorough;
    auto P = std::make_shared<std::vector<mc::Bytes>>(probes(th));
    // every shift of the origin just below and above the powers of two that bound the widths
    for (unsigned k : {31u, 32u, 39u, 40u, 47u, 48u, 55u, 56u})
    {
        uint64_t below = th ? 12000 : 2300, above = 24, np = th ? P->size() : P->size();
        ex.add("boundary-2^" + std::to_string(k), "origin moved by 2^k - j for every j in -24.." + std::to_string(below) + " (so every position of the data crosses 2^k), for " + std::to_string(np) + " probe strings", (below + above + 1) * np,
               [=](uint64_t i, mc::Cx &cx) { uint64_t j = i / np; one((*P)[i % np], (1ULL << k) + above - j, cx, j); },
               [=](uint64_t i) { return "offset 2^" + std::to_string(k) + (i / np <= above ? "+" : "-") + std::to_string(i / np <= above ? above - i / np : i / np - above) + " " + mc::show_bytes((*P)[i % np]); });
    }
    std::vector<uint64_t> offs;
    for (unsigned k = 12; k <= 62; k++) for (uint64_t j : {0ull, 1ull, 2ull, 3ull, 4ull, 5ull, 6ull, 7ull, 8ull, 16ull, 100ull, 515ull, 520ull, 525ull, 530ull, 700ull, 1030ull, 1100ull, 1500ull, 1600ull}) { offs.push_back((1ULL << k) - j); offs.push_back((1ULL << k) + j); }
    for (uint64_t top : {1ull << 32, 1ull << 40, 1ull << 48, 1ull << 56, 1ull << 63}) for (uint64_t j : {5000ull, 6000ull, 10000ull, 20000ull, 100000ull}) if (top == 1ull << 63) offs.push_back(top - j * 1000); else offs.push_back(top - j);
    { size_t np = P->size(); auto O = std::make_shared<std::vector<uint64_t>>(offs);
      ex.add("all-magnitudes", "origin near every power of two from 2^12 to 2^62 and near 2^63, every probe string", O->size() * np,
             [=](uint64_t i, mc::Cx &cx) { one((*P)[i % np], (*O)[i / np], cx, i); }, [=](uint64_t i) { return "offset " + std::to_string((*O)[i / np]) + " " + mc::show_bytes((*P)[i % np]); }); }
    ex.add("top-2^63", "origin 2^63 - j for j in 3000..5000, two small strings (the largest positions there can be)", 2001 * 2,
           [=](uint64_t i, mc::Cx &cx) { one((*P)[i % 2], (1ULL << 63) - 3000 - i / 2, cx, i); }, [=](uint64_t i) { return "offset 2^63-" + std::to_string(3000 + i / 2) + " " + mc::show_bytes((*P)[i % 2]); });
    // every width x every small string
    std::vector<uint64_t> W{0, 0x40000000ull, 0x7ff00000ull, 0x80001000ull, 0xfffffe80ull, 0x55d4d4d4d4ull, 0x7ffffff000ull, 0x8000001000ull, 0xa5a5a5a5a5a5ull & 0x7fffffffffffull, 0x7fffffff0000ull, 0x800000000100ull, 0x5a5a8000ffff80ull, 0x7ffffffff00000ull, 0x80000000000200ull, 0x5555555555555555ull & ~0xfffull, 0x7ffffffffff00000ull, 0x2a00ffff0000ff00ull};
    std::vector<inputs::Space> sp = inputs::small(th ? 1 : 0), st = inputs::structured(0);
    if (th) sp.erase(std::remove_if(sp.begin(), sp.end(), [](const inputs::Space &s) { return s.size > 100000; }), sp.end());
    for (auto &s : st) if (th || s.size < 9000) sp.push_back(s);
    auto WW = std::make_shared<std::vector<uint64_t>>(W);
    for (auto &s : sp)
    {
        if (s.name.find("large") != std::string::npos || s.name.find("64k") != std::string::npos) { if (!th) continue; }
        ex.add(s.name + "*widths", s.rule + ", for each of " + std::to_string(W.size()) + " origins spread over all widths", s.size * W.size(),
               [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i / WW->size(), b); one(b, (*WW)[i % WW->size()], cx, i); },
               [=](uint64_t i) { return "offset " + std::to_string((*WW)[i % WW->size()]) + " " + inputs::show(s, i / WW->size()); }, s.timeout, s.chunk);
    }
    // long strings: so many pieces that indexes and counts need 17 to 25 bits, in every width
    { std::vector<std::pair<unsigned, size_t>> L{{1, 131073}, {1, 140000}, {5, 300000}, {6, 300000}, {9, 200000}, {11, 400000}, {14, 1200000}}; if (th) { L.push_back({5, 9000000}); L.push_back({11, 5000000}); L.push_back({8, 3000000}); }
      std::vector<uint64_t> O{0, 0x80001000ull, 0x55d4d4d4d4ull, 0x7fffffff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull}; if (th) O = W;
      ex.add("long*widths", "base words of 131073 to 1200000 (thorough: 9000000) bytes, for each of " + std::to_string(O.size()) + " origins", L.size() * O.size(), [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; inputs::base_word(L[i % L.size()].first, L[i % L.size()].second, b); one(b, O[i / L.size()], cx, i); }, [=](uint64_t i) { return "offset " + std::to_string(O[i / L.size()]) + ", base word " + std::to_string(L[i % L.size()].first) + " of " + std::to_string(L[i % L.size()].second) + " bytes"; }, 300, 1);
      ex.add("many-pieces*widths", "33.7 million bytes of two letters in turn (more than 2^24 pieces), for each of " + std::to_string(O.size() - 1) + " origins", O.size() - 1, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; inputs::base_word(1, 33700001, b); one(b, O[i + 1], cx, 1); mc::Bytes().swap(b); }, [=](uint64_t i) { return "offset " + std::to_string(O[i + 1]); }, 600, 1); }
    ex.assumptions = {"the string is followed by one zero byte", "magnitudes are produced by moving the origin of the dictionary's positions (hook FLBWT_VERIFY); inputs that really hold more than 2^31 pieces do not fit this sandbox"};
    return ex.main();
}

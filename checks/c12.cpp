// C12: every memory request of a call as the failing one, alone and from there on.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "lib_call.hpp"
uint64_t flbwt_verify_base_offset = 0;

static const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull};
// "threw" or "" (right result); anything else is a description of a failure
static std::string call(uint8_t *T, const mc::Bytes &orig, size_t n, bool own)
{
    flbwt::BWT_result *r = nullptr;
    try { alloc::On on; r = flbwt::bwt_string(T, n, own); }
    catch (std::exception &x) { return "threw"; }
    catch (...) { return "the call threw something that is not derived from std::exception"; }
    if (!r || !r->BWT) return "the call returned no result and reported no error";
    std::string e = ref::check(orig.data(), n, r->BWT, r->last, 32);
    delete[] r->BWT; free(r);
    return e.empty() ? e : "the call returned a wrong result: " + e;
}
static bool corrupt() { return alloc::err[0] && strncmp(alloc::err, "block from", 10); }
static void scenario(const mc::Bytes &in, uint64_t off, bool own, int mode, mc::Cx &cx, uint64_t first = 0, uint64_t step = 1)
{
    static mc::Bytes buf; size_t n = in.size(); static mc::Bytes orig; orig = in; orig.push_back(0);
    flbwt_verify_base_offset = off;
    const bool alternate = mode & 4; const int mode0 = mode & 3;
    for (uint64_t k = 1 + first;; k += step)
    {
        mode = mode0; if (alternate && k % 2) mode ^= 1;
        cx.note("request %" PRIu64 " fails%s, free_T %d", k, mode & 1 ? " and every later one" : "", own);
        alloc::reset(); alloc::fill = mode & 2 ? 0xFF : alloc::DIRTY; alloc::realloc_mode = n > 3000 ? 1 : mode & 2 ? 1 : 0;
        uint8_t *T; if (own) { alloc::On on; T = (uint8_t *)malloc(n + 1); memcpy(T, orig.data(), n + 1); } else { buf = orig; T = buf.data(); }
        alloc::reqs = 0; alloc::fail_at = k; alloc::persist = mode & 1; alloc::watch = own ? T : nullptr;
        std::string r = call(T, orig, n, own);
        bool hit = alloc::failed > 0; uint64_t total = alloc::reqs; alloc::fail_at = 0; alloc::persist = false;
        if (!r.empty() && r != "threw") cx.fail("request %" PRIu64 " failing%s (free_T %d): %s", k, mode & 1 ? " with all later ones" : "", own, r.c_str());
        if (r == "threw" && !hit) cx.fail("the call threw although no request failed");
        if (corrupt()) cx.fail("request %" PRIu64 " failing (free_T %d): %s", k, own, alloc::err);
        if (!own && memcmp(T, orig.data(), n + 1)) cx.fail("request %" PRIu64 " failing: the caller's string was changed", k);
        cx.state(mc::hash(mc::hash(orig.data(), n, off), k * 8 + mode * 2 + own)); cx.outcome(mc::hash(r == "threw", mc::hash(total, k))); cx.transitions()++; cx.traces()++;
        // a later call in the same process
        buf = orig; std::string q = call(buf.data(), orig, n, false);
        if (!q.empty()) cx.fail("a later call with memory available, after request %" PRIu64 " failed: %s", k, q == "threw" ? "threw" : q.c_str());
        if (corrupt()) cx.fail("a later call after request %" PRIu64 " failed: %s", k, alloc::err);
        if (!hit) break;
    }
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C12"; ex.args(argc, argv); bool th = ex.thorough;
    ex.worker_init = [=]() { alloc::init(th ? 3ULL << 30 : 1ULL << 30); };
    auto add = [&](const inputs::Space &s, std::vector<uint64_t> offs, std::vector<int> modes, bool both) {
        auto O = std::make_shared<std::vector<uint64_t>>(offs); auto M = std::make_shared<std::vector<int>>(modes); uint64_t per = offs.size() * modes.size() * (both ? 2 : 1);
        ex.add(s.name + "*requests", s.rule + "; x every memory request as the first failing one x (that one alone, all later ones too) x " + std::to_string(offs.size()) + " position origins x free_T", s.size * per,
               [=](uint64_t i, mc::Cx &cx) { mc::Radix d(i); uint64_t o = (*O)[d.pick(O->size())]; int m = (*M)[d.pick(M->size())]; bool own = both && d.pick(2); static mc::Bytes b; s.gen(d.v, b); scenario(b, o, own, m, cx); },
               [=](uint64_t i) { mc::Radix d(i); uint64_t o = (*O)[d.pick(O->size())]; int m = (*M)[d.pick(M->size())]; bool own = both && d.pick(2); return "origin " + std::to_string(o) + " mode " + std::to_string(m) + " free_T " + std::to_string(own) + " " + inputs::show(s, d.v); }, 120, s.chunk);
    };
    auto S = [](const char *s) { return mc::Bytes(s, s + strlen(s)); }; std::vector<mc::Bytes> v{S("mississippi"), S("abracadabra"), mc::Bytes{0, 255, 0, 255, 1, 0, 254, 255}, mc::Bytes(300, 'x')}; mc::Bytes b;
    inputs::base_word(5, 233, b); v.push_back(b); inputs::base_word(1, 2600, b); v.push_back(b);
    b.clear(); for (int i = 0; i < 9; i++) { for (char c : std::string("bxaxaxxbyy")) b.push_back(c); for (int j = 0; j < i * 40; j++) b.push_back('q'); } v.push_back(b);
    inputs::collide({1}, {100}, "").gen(1, b); v.push_back(b); inputs::names_sparse({257}, "").gen(9, b); v.push_back(b);
    if (th) { inputs::base_word(9, 600, b); v.push_back(b); inputs::base_word(11, 3000, b); v.push_back(b); inputs::deep(3, 3, 1, 4).gen(333, b); v.push_back(b); }
    auto V = std::make_shared<std::vector<mc::Bytes>>(v);
    std::vector<int> two{0, 1}, four{0, 1, 2, 3};
    add(inputs::mk("probes", std::to_string(v.size()) + " probe strings (several storage blocks, several queue blocks, recursion)", v.size(), [V](uint64_t i, mc::Bytes &o) { o = (*V)[i]; }, 60, 1), W, th ? four : two, true);
    // long strings: thresholds on the length are crossed, every request of theirs fails once (one mode and origin each)
    std::vector<mc::Bytes> lv; for (int k : th ? std::vector<int>{1, 5, 9, 11, 14} : std::vector<int>{1, 5, 14}) { inputs::base_word(k, th ? 140000 : 70000, b); lv.push_back(b); }
    b.assign(th ? 400000 : 150000, 'x'); b[70000] = 'a'; lv.push_back(b);
    auto LV = std::make_shared<std::vector<mc::Bytes>>(lv); const int SL = 64;
    ex.add("long*requests", std::to_string(lv.size()) + " strings of " + (th ? "140000 to 400000" : "70000 to 150000") + " bytes; x every memory request as the first failing one (odd ones alone, even ones with all later ones too" + (th ? ", and the other way round" : "") + ") x free_T", lv.size() * SL * 2 * (th ? 2 : 1),
           [=](uint64_t i, mc::Cx &cx) { mc::Radix d(i); uint64_t s = d.pick(SL); bool own = d.pick(2); const mc::Bytes &T = (*LV)[d.pick(LV->size())]; scenario(T, W[own], own, d.v ? 4 : 5, cx, s, SL); },
           [=](uint64_t i) { mc::Radix d(i); uint64_t s = d.pick(SL); bool own = d.pick(2); uint64_t t = d.pick(LV->size()); return "long string " + std::to_string(t) + ", free_T " + std::to_string(own) + ", requests " + std::to_string(s + 1) + " + k*" + std::to_string(SL); }, 120, 1);
    add(inputs::words({'a', 'b'}, 1, th ? 7 : 3), W, th ? four : two, true);
    add(inputs::words({0, 255}, 1, th ? 5 : 2), W, th ? four : two, true);
    add(inputs::words({'a', 'b'}, 4, th ? 9 : 5), {0}, two, false);
    add(inputs::words({'a', 'b', 'c'}, 3, th ? 6 : 4), {0}, {0}, false);
    if (th) for (int n = 3; n <= 5; n++) add(inputs::orders(n, 2), {0}, two, false);
    ex.assumptions = {"the failure of a request is modelled at malloc, realloc, calloc and operator new; the C++ runtime's own exception objects come from elsewhere", "the string is followed by one zero byte"};
    return ex.main();
}

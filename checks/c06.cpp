// C06: the caller's buffer. T lies in its own pages whose protection follows the contract: read-only
// during a free_T=false call and inaccessible afterwards; inaccessible from the moment of free() with free_T=true.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "lib_call.hpp"
uint64_t flbwt_verify_base_offset = 0;

static uint8_t *region; static size_t region_size, used; static bool gone;
static void close_region() { if (!gone) { gone = true; mprotect(region, used, PROT_NONE); } }
struct Res { mc::Bytes rows; uint64_t last; };
static std::string place(const mc::Bytes &in, size_t shift, uint8_t *&T)
{
    size_t n = in.size(); used = ((n + 1 + shift + 4095) / 4096 + 1) * 4096; if (used > region_size) return "input too large";
    if (mprotect(region, used, PROT_READ | PROT_WRITE)) return "mprotect failed";
    T = region + shift; memcpy(T, in.data(), n); T[n] = 0; gone = false;
    alloc::ext_lo = region; alloc::ext_hi = region + region_size; alloc::ext_at = T; alloc::ext_freed = alloc::ext_kind = alloc::ext_bad = 0;
    return "";
}
static void take(flbwt::BWT_result *r, size_t n, Res &o, mc::Cx &cx)
{
    if (!r || !r->BWT) cx.fail("no result");
    if (alloc::ext_lo <= (uint8_t *)r && (uint8_t *)r < alloc::ext_hi) cx.fail("the result lies in the caller's string");
    if (alloc::ext_lo <= r->BWT && r->BWT < alloc::ext_hi) cx.fail("the rows lie in the caller's string");
    o.rows.assign(r->BWT, r->BWT + n + 1); o.last = r->last;
}
static void release(flbwt::BWT_result *r, mc::Cx &cx)
{
    std::string before = alloc::err; uint64_t live = alloc::live;
    delete[] r->BWT; free(r);
    if (before != alloc::err) cx.fail("releasing the BWT with delete[] and the result with free(): %s", alloc::err);
    if (live != alloc::live + 2) cx.fail("the BWT and the result are not two separate live blocks");
}
static void one(const mc::Bytes &in, uint64_t off, mc::Cx &cx, uint64_t salt)
{
    size_t n = in.size(); uint8_t *T; Res a, b; static mc::Bytes other{'b', 'a', 'n', 'a', 'n', 'a', 's', 0}; flbwt_verify_base_offset = off; size_t shift = salt % 17;
    auto again = [&](const char *when) { // a later call of another string: no reference to the old one is left
        std::string e = lib::run_and_check(other.data(), other.size() - 1, cx); if (!e.empty()) cx.fail("%s: a later call on another string: %s", when, e.c_str()); };
    // borrowed
    cx.note("free_T false"); alloc::reset(); alloc::fill = salt & 1 ? 0xFF : alloc::DIRTY; alloc::realloc_mode = n > 3000 ? 1 : 2;
    std::string e = place(in, shift, T); if (!e.empty()) cx.fail("%s", e.c_str());
    alloc::ext_gone = nullptr; mprotect(region, used, PROT_READ);
    flbwt::BWT_result *r;
    try { alloc::On on; r = flbwt::bwt_string(T, n, false); } catch (std::exception &x) { cx.fail("free_T false: threw %s", x.what()); }
    if (alloc::ext_freed) cx.fail("free_T false: the caller's string was released (%s)", alloc::ext_kind == alloc::REALLOC ? "realloc" : alloc::kn(alloc::ext_kind));
    mprotect(region, used, PROT_NONE); gone = true; cx.note("free_T false, string no longer accessible");
    take(r, n, a, cx); again("free_T false"); if (memcmp(r->BWT, a.rows.data(), n + 1) || r->last != a.last) cx.fail("free_T false: the result changed after the call"); release(r, cx);
    if (alloc::ext_freed) cx.fail("free_T false: the caller's string was released later");
    // handed over
    cx.note("free_T true"); alloc::reset(); alloc::fill = salt & 1 ? alloc::DIRTY : 0xFF; alloc::realloc_mode = n > 3000 ? 1 : 2;
    e = place(in, shift & ~(size_t)15, T); if (!e.empty()) cx.fail("%s", e.c_str());
    alloc::ext_gone = close_region;
    try { alloc::On on; r = flbwt::bwt_string(T, n, true); } catch (std::exception &x) { cx.fail("free_T true: threw %s", x.what()); }
    if (alloc::ext_freed != 1) cx.fail("free_T true: the string was released %d times before the call returned", alloc::ext_freed);
    if (alloc::ext_kind != alloc::MALLOC) cx.fail("free_T true: the string was not released with free() but with the counterpart of %s", alloc::ext_kind == alloc::REALLOC ? "realloc" : alloc::kn(alloc::ext_kind));
    if (alloc::ext_bad) cx.fail("free_T true: released an address inside the string");
    cx.note("free_T true, after the call"); take(r, n, b, cx); again("free_T true"); if (memcmp(r->BWT, b.rows.data(), n + 1) || r->last != b.last) cx.fail("free_T true: the result changed after the call"); release(r, cx);
    if (alloc::ext_freed != 1) cx.fail("free_T true: the string was released again later");
    if (a.last != b.last) cx.fail("marker index %" PRIu64 " with free_T false, %" PRIu64 " with free_T true", a.last, b.last);
    for (size_t i = 0; i <= n; i++) if (i != a.last && a.rows[i] != b.rows[i]) cx.fail("row %zu is %u with free_T false and %u with free_T true", i, a.rows[i], b.rows[i]);
    cx.state(mc::hash(in.data(), n, off)); cx.outcome(mc::hash(a.rows.data(), n, a.last)); cx.transitions() += 4; cx.traces() += 2;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C06"; ex.args(argc, argv); bool th = ex.thorough;
    ex.worker_init = [=]() { alloc::init(2ULL << 30); region_size = 1 << 25; region = (uint8_t *)mmap(0, region_size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); };
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull};
    auto WW = std::make_shared<std::vector<uint64_t>>(W); std::vector<inputs::Space> sp = inputs::small(th ? 2 : 1), st = inputs::structured(1);
    for (auto &s : st) sp.push_back(s);
    for (auto &s : sp)
    {
        if (s.size > (th ? 300000 : 30000)) continue;
        bool big = s.name.find("large") != std::string::npos || s.name.find("64k") != std::string::npos || s.name.find("medium") != std::string::npos || s.size > 10000; uint64_t nw = big && !th ? 1 : W.size();
        ex.add(s.name + "*ownership", s.rule + ", x both ownership modes x " + std::to_string(nw) + " position origins", s.size * nw,
               [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i / nw, b); one(b, (*WW)[i % nw], cx, i / nw); },
               [=](uint64_t i) { return "origin " + std::to_string((*WW)[i % nw]) + " " + inputs::show(s, i / nw); }, s.timeout, s.chunk);
    }
    ex.assumptions = {"the string is followed by one zero byte"};
    return ex.main();
}

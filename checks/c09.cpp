// C09: results as a function of the bytes only. (a) every environment answer of the allocator and every
// placement for many inputs; (b) every call history up to a depth, each in a fresh process.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "lib_call.hpp"
#include <alloca.h>

static void __attribute__((noinline)) scribble(int v) { volatile uint8_t *p = (volatile uint8_t *)alloca(60000); for (int i = 0; i < 60000; i++) p[i] = v; }
static const int FILLS[] = {0x00, 0xFF, 0x01, 0x5A, 0x80, alloc::DIRTY};
static void environments(const mc::Bytes &in, mc::Cx &cx, bool light)
{
    static mc::Bytes T; size_t n = in.size(); static mc::Bytes first; uint64_t flast = 0; bool have = false;
    T.assign(n + 1 + 96, 0xEE);
    auto run = [&](int fill, int rm, size_t shift, bool own) {
        cx.note("fresh memory 0x%x, realloc mode %d, string at address %zu mod 16, free_T %d", fill & 0x1ff, rm, shift, own);
        alloc::reset(); alloc::fill = fill; alloc::realloc_mode = n > 3000 ? 1 : rm;
        uint8_t *p = (uint8_t *)(((uintptr_t)T.data() + 15) / 16 * 16) + shift;
        if (own) { alloc::On on; p = (uint8_t *)malloc(n + 1); }
        memcpy(p, in.data(), n); p[n] = 0; if (!own) p[n + 1] = fill;
        scribble(fill == alloc::DIRTY ? 0x77 : fill); flbwt::BWT_result *r = nullptr;
        try { alloc::On on; r = flbwt::bwt_string(p, n, own); } catch (std::exception &x) { cx.fail("threw %s (%s)", x.what(), cx.s->cur); }
        if (!r || !r->BWT) cx.fail("no result (%s)", cx.s->cur);
        if (!have) { first.assign(r->BWT, r->BWT + n + 1); flast = r->last; have = true; }
        if (r->last != flast) cx.fail("marker index is %" PRIu64 ", it was %" PRIu64 " with zero-filled fresh memory (%s)", r->last, flast, cx.s->cur);
        for (size_t i = 0; i <= n; i++) if (i != flast && r->BWT[i] != first[i]) cx.fail("row %zu is %u, it was %u with zero-filled fresh memory (%s)", i, r->BWT[i], first[i], cx.s->cur);
        delete[] r->BWT; free(r);
        cx.state(mc::hash(mc::hash(in.data(), n), mc::hash(fill + 1000, rm * 64 + shift * 2 + own))); cx.transitions()++; cx.traces()++;
    };
    for (int f : FILLS) { run(f, 0, 0, false); if (!light || f == 0xFF) { run(f, 1, 0, false); run(f, 2, 0, false); } }
    for (size_t s = 1; s < 16; s += light ? 5 : 1) run(alloc::DIRTY, 2, s, false);
    run(0xFF, 2, 0, true);
    cx.outcome(mc::hash(first.data(), n, flast));
}
// ---- histories
struct Op { std::string name; int kind; mc::Bytes in; ref::Bwt want; }; // kind 0 borrowed, 1 owned, 2 null, 3 length 0, 4 file, 5 file missing, 6 file output unusable, 7 out of memory, 8 free result late
static std::vector<Op> alphabet()
{
    std::vector<Op> v; auto S = [](const char *s) { return mc::Bytes(s, s + strlen(s)); }; mc::Bytes b;
    auto add = [&](const char *n, int k, mc::Bytes in) { Op o{n, k, in, {}}; if (!in.empty()) o.want = ref::bwt(in.data(), in.size()); v.push_back(o); };
    add("mississippi", 0, S("mississippi")); add("one byte", 0, S("q")); add("two bytes", 1, S("ba")); add("0/255", 0, mc::Bytes{0, 255, 0, 0, 255, 1, 255, 255, 0});
    inputs::base_word(5, 233, b); add("fibonacci233", 1, b); inputs::base_word(11, 300, b); add("noise300", 0, b); add("run1100", 0, mc::Bytes(1100, 'x'));
    inputs::collide({1}, {60}, "").gen(1, b); add("collisions", 0, b);
    add("null", 2, {}); add("length 0", 3, S("x")); add("file", 4, S("abracadabra")); add("file missing", 5, S("x")); add("output unusable", 6, S("banana")); add("out of memory", 7, S("mississippi")); add("out of memory late", 9, S("abracadabra"));
    return v;
}
static std::string dir;
static std::string apply(const Op &o)
{
    size_t n = o.in.size(); mc::Bytes t = o.in; t.push_back(0);
    auto check = [&](const uint8_t *rows, uint64_t last) -> std::string {
        if (last != o.want.last) return "marker index " + std::to_string(last) + " instead of " + std::to_string(o.want.last);
        for (size_t i = 0; i <= n; i++) if (i != last && rows[i] != o.want.rows[i]) return "row " + std::to_string(i) + " is " + std::to_string(rows[i]) + " instead of " + std::to_string(o.want.rows[i]);
        return ""; };
    if (o.kind <= 1)
    {
        uint8_t *p = t.data(); if (o.kind == 1) { alloc::On on; p = (uint8_t *)malloc(n + 1); memcpy(p, t.data(), n + 1); }
        flbwt::BWT_result *r; try { alloc::On on; r = flbwt::bwt_string(p, n, o.kind == 1); } catch (std::exception &x) { return std::string("threw ") + x.what(); }
        if (!r || !r->BWT) return "no result";
        std::string e = check(r->BWT, r->last); delete[] r->BWT; free(r); return e;
    }
    if (o.kind == 2 || o.kind == 3) { try { alloc::On on; flbwt::bwt_string(o.kind == 2 ? nullptr : t.data(), o.kind == 2 ? 5 : 0, false); } catch (std::exception &) { return ""; } return "accepted an invalid request"; }
    if (o.kind == 7 || o.kind == 9)
    {
        uint64_t r0 = alloc::reqs; alloc::fail_at = r0 + (o.kind == 7 ? 3 : 40); alloc::persist = true; std::string e; flbwt::BWT_result *r = nullptr;
        try { alloc::On on; r = flbwt::bwt_string(t.data(), n, false); } catch (std::exception &) {}
        alloc::fail_at = 0; alloc::persist = false;
        if (r) { e = check(r->BWT, r->last); delete[] r->BWT; free(r); }
        return e;
    }
    std::string in = dir + "/" + std::to_string(getpid()) + ".in", out = o.kind == 6 ? dir + "/none/x" : dir + "/" + std::to_string(getpid()) + ".out", e; bool threw = false;
    if (o.kind != 5) { FILE *f = fopen(in.c_str(), "w"); if (!f) { perror("scratch"); _exit(2); } fwrite(o.in.data(), 1, n, f); fclose(f); }
    try { alloc::On on; flbwt::bwt_file(in.c_str(), out.c_str()); } catch (std::exception &x) { threw = true; }
    if (o.kind == 4)
    {
        if (threw) e = "bwt_file threw";
        else
        {
            uint8_t buf[4096]; FILE *f = fopen(out.c_str(), "r"); size_t k = f ? fread(buf, 1, sizeof buf, f) : 0; if (f) fclose(f); uint64_t last = 0; for (int i = 0; i < 8; i++) last = last << 8 | buf[i];
            if (k != n + 8) e = "output of " + std::to_string(k) + " bytes"; else { mc::Bytes rows(buf + 8, buf + k); if (last <= n) rows.insert(rows.begin() + last, 0); e = check(rows.data(), last); }
        }
    }
    else if (!threw) e = "accepted an unusable file";
    unlink(in.c_str()); if (o.kind != 6) unlink(out.c_str());
    return e;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C09"; ex.args(argc, argv); bool th = ex.thorough; dir = ex.workdir;
    ex.worker_init = [=]() { alloc::init(1ULL << 30); };
    std::vector<inputs::Space> sp = inputs::small(th ? 1 : 0), st = inputs::structured(th ? 1 : 0);
    for (auto &s : st) sp.push_back(s);
    std::vector<uint32_t> hs; for (uint32_t h = 0; h < 67777; h++) if (th || h < 300 || h > 67777 - 300 || h % 61 == 0 || (h & (h - 1)) == 0 || (h & (h + 1)) == 0) hs.push_back(h);
    auto sl = inputs::slots(hs, th ? "all" : "some"); ex.add(sl.name + "*environments", sl.rule + ", x all fresh memory patterns", sl.size, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; sl.gen(i, b); environments(b, cx, true); }, [=](uint64_t i) { return inputs::show(sl, i); });
    for (auto &s : sp)
    {
        bool big = s.name.find("large") != std::string::npos || s.name.find("64k") != std::string::npos || s.name.find("medium") != std::string::npos; if (s.size > (th ? 70000 : 9000)) continue;
        ex.add(s.name + "*environments", s.rule + ", x fresh memory filled with 0x00, 0xff, 0x01, 0x5a, 0x80 or left dirty x realloc moving / in place / alternating x placement of the string mod 16", s.size,
               [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i, b); environments(b, cx, big || (!th && s.size > 1200)); }, [=](uint64_t i) { return inputs::show(s, i); }, s.timeout * 4, s.chunk);
    }
    // pairs of calls on one buffer: other contents at the same address, the same table and block addresses
    for (auto &s : std::vector<inputs::Space>{inputs::words({'a', 'b', 'c'}, 1, th ? 6 : 5), inputs::words({0, 255}, 2, th ? 9 : 7), inputs::names_sparse({3, 4, 5}, "")})
        ex.add(s.name + "*same-buffer", "every ordered pair of calls on " + s.rule + ", both at one address of the same memory, borrowed and handed over", s.size * s.size * 2,
               [=](uint64_t i, mc::Cx &cx) {
                   static uint8_t buf[4096]; static mc::Bytes b; mc::Radix d(i); bool own = d.pick(2); uint64_t x[2]; x[0] = d.pick(s.size); x[1] = d.v;
                   static std::vector<std::pair<bool, ref::Bwt>> memo; static std::string memo_for; if (memo_for != s.name) { memo.assign(s.size, {false, {}}); memo_for = s.name; }
                   for (int k = 0; k < 2; k++)
                   {
                       alloc::reset(); alloc::fill = 0x5A; alloc::realloc_mode = 1; s.gen(x[k], b); size_t n = b.size(); uint8_t *p = buf; if (own) { alloc::On on; p = (uint8_t *)malloc(n + 1); }
                       memcpy(p, b.data(), n); p[n] = 0; if (!memo[x[k]].first) memo[x[k]] = {true, ref::bwt(b.data(), n)}; const ref::Bwt &w = memo[x[k]].second;
                       flbwt::BWT_result *r = nullptr; try { alloc::On on; r = flbwt::bwt_string(p, n, own); } catch (std::exception &e) { cx.fail("call %d threw %s", k + 1, e.what()); }
                       if (!r || !r->BWT) cx.fail("call %d: no result", k + 1);
                       if (r->last != w.last) cx.fail("call %d: marker index is %" PRIu64 ", must be %" PRIu64, k + 1, r->last, w.last);
                       for (size_t j = 0; j <= n; j++) if (j != w.last && r->BWT[j] != w.rows[j]) cx.fail("call %d: row %zu is %u, must be %u", k + 1, j, r->BWT[j], w.rows[j]);
                       delete[] r->BWT; free(r); cx.transitions()++;
                   }
                   cx.state(mc::hash(i, s.size)); cx.traces()++; },
               [=](uint64_t i) { mc::Radix d(i); bool own = d.pick(2); uint64_t a = d.pick(s.size); return std::string(own ? "owned " : "borrowed ") + inputs::show(s, a) + " then " + inputs::show(s, d.v); });
    // long strings one after the other at one address: memory of places, lengths, samples or checksums of earlier strings
    std::vector<std::pair<unsigned, uint32_t>> sg = th ? std::vector<std::pair<unsigned, uint32_t>>{{4, 5000}, {3, 70000}, {5, 300}, {3, 20000}} : std::vector<std::pair<unsigned, uint32_t>>{{3, 5000}, {2, 70000}, {4, 300}};
    for (auto g : sg)
    {
        unsigned w = g.first; uint32_t len = g.second; uint64_t S = inputs::ipow(4, w);
        auto gen = [=](uint64_t v, mc::Bytes &o) { o.clear(); for (unsigned k = 0; k < w; k++, v /= 4) { o.push_back('a'); size_t z = o.size(); unsigned how = v % 4; if (how == 1) for (uint32_t j = 0; j < len; j++) o.push_back("ba"[j & 1]); else o.insert(o.end(), len, how == 0 ? 'c' : 'd'); o[z + len - 1] = 'b'; if (how == 3) o[z + len / 2] = 'e'; } o.push_back('a'); o.push_back('b'); };
        ex.add("segments-" + std::to_string(w) + "x" + std::to_string(len) + "*same-buffer", "every ordered pair of calls on strings of " + std::to_string(w) + " segments of " + std::to_string(len) + " bytes (two runs, one alternation, a run with one byte changed), both at one address, handed over or not", S * S * 2,
               [=](uint64_t i, mc::Cx &cx) {
                   static mc::Bytes buf(1 << 20), b; mc::Radix d(i); bool own = d.pick(2); uint64_t x[2]; x[0] = d.pick(S); x[1] = d.v;
                   for (int k = 0; k < 2; k++)
                   {
                       alloc::reset(); alloc::fill = 0x5A; alloc::realloc_mode = 1; gen(x[k], b); size_t n = b.size(); uint8_t *p = buf.data(); if (own) { alloc::On on; p = (uint8_t *)malloc(n + 1); }
                       memcpy(p, b.data(), n); p[n] = 0; flbwt::BWT_result *r = nullptr; try { alloc::On on; r = flbwt::bwt_string(p, n, own); } catch (std::exception &e) { cx.fail("call %d threw %s", k + 1, e.what()); }
                       if (!r || !r->BWT) cx.fail("call %d: no result", k + 1);
                       b.push_back(0); std::string e = ref::check(b.data(), n, r->BWT, r->last, 0); if (!e.empty()) cx.fail("call %d: %s", k + 1, e.c_str());
                       delete[] r->BWT; free(r); cx.transitions()++;
                   }
                   cx.state(mc::hash(i, w * 1000000ull + len)); cx.traces()++; },
               [=](uint64_t i) { mc::Radix d(i); bool own = d.pick(2); uint64_t a = d.pick(S); mc::Bytes x, y; gen(a, x); gen(d.v, y); return std::string(own ? "owned " : "borrowed ") + mc::show_bytes(x, 12) + " then " + mc::show_bytes(y, 12); }, 120);
    }
    auto A = std::make_shared<std::vector<Op>>(alphabet()); uint64_t k = A->size(); unsigned depth = th ? 5 : 4; std::vector<int> fills = th ? std::vector<int>{0x00, 0xFF} : std::vector<int>{0xFF, alloc::DIRTY};
    for (unsigned d = 1; d <= depth; d++)
        ex.add("histories-depth" + std::to_string(d), "every sequence of this many calls over an alphabet of " + std::to_string(k) + " calls (valid ones of all kinds, invalid ones, failing file calls, calls that run out of memory), each in a fresh process, fresh memory filled two ways", inputs::ipow(k, d) * 2,
               [=](uint64_t i, mc::Cx &cx) {
                   mc::Radix x(i); int f = fills[x.pick(2)]; std::vector<int> ops; for (unsigned j = 0; j < d; j++) ops.push_back(x.pick(k));
                   // the child reports through a page of shared memory
                   static char *pg = nullptr; if (!pg) pg = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                   pg[0] = 0; pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
                   if (p == 0)
                   {
                       prctl(PR_SET_PDEATHSIG, SIGKILL); alloc::reset(); alloc::fill = f; alloc::realloc_mode = 2;
                       for (unsigned j = 0; j < d; j++) { cx.note("call %u of the history: %s", j + 1, (*A)[ops[j]].name.c_str()); std::string e = apply((*A)[ops[j]]); if (!e.empty()) { snprintf(pg, 4096, "call %u (%s): %s", j + 1, (*A)[ops[j]].name.c_str(), e.c_str()); _exit(1); } }
                       _exit(0);
                   }
                   int st; while (waitpid(p, &st, 0) < 0) {}
                   if (WIFSIGNALED(st)) cx.fail("killed by signal %d during %s", WTERMSIG(st), cx.s->cur);
                   if (WEXITSTATUS(st) == 1) cx.fail("%s", pg); if (WEXITSTATUS(st)) { fprintf(stderr, "history child failed\n"); _exit(2); }
                   cx.state(mc::hash(i, d)); cx.outcome(mc::hash(ops.back(), 7)); cx.transitions() += d; cx.traces()++;
               },
               [=](uint64_t i) { mc::Radix x(i); std::string s = "fill " + std::to_string(fills[x.pick(2)]) + ":"; for (unsigned j = 0; j < d; j++) s += (j ? " ; " : " ") + (*A)[x.pick(k)].name; return s; }, 60);
    ex.assumptions = {"the string is followed by one zero byte"};
    return ex.main();
}

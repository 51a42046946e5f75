// C07: allocation ledger and descriptor table before and after every call.
#define MC_ALLOC_IMPL
#include "fault.hpp"
#include "inputs.hpp"
uint64_t flbwt_verify_base_offset = 0;
using namespace fault;
static Lab L; static bool ready = false;

// address space of this process in pages
static long pages() { static int fd = open("/proc/self/statm", O_RDONLY | O_CLOEXEC); char b[64]; ssize_t k = pread(fd, b, 63, 0); if (k <= 0) return 0; b[k] = 0; return atol(b); }
static void one(const mc::Bytes &in, uint64_t off, bool own, mc::Cx &cx, int salt, int again = 0)
{
    static mc::Bytes buf; size_t n = in.size(); buf = in; buf.push_back(0); flbwt_verify_base_offset = off;
    cx.note("free_T %d", own); alloc::reset(); alloc::fill = salt & 1 ? 0xFF : alloc::DIRTY; alloc::realloc_mode = n > 3000 ? 1 : 2;
    uint8_t *T = buf.data(); if (own) { alloc::On on; T = (uint8_t *)malloc(n + 1); memcpy(T, buf.data(), n + 1); }
    bool threw = false; flbwt::BWT_result *r = nullptr; long p0 = pages(); int f0 = salt % 64 ? 0 : Lab::count_fds();
    try { alloc::On on; r = flbwt::bwt_string(T, n, own); } catch (std::exception &) { threw = true; }
    uint64_t peak = alloc::peak;
    if (threw) return;
    if (r) { delete[] r->BWT; free(r); }
    long p1 = pages();
    // memory mapped past the allocator: the first calls of a process may map something once, three in a row may not
    if (p1 > p0) { if (again == 3) cx.fail("free_T %d: the call leaves %ld more pages mapped, time after time", own, p1 - p0); one(in, off, own, cx, salt, again + 1); return; }
    if (alloc::err[0]) cx.fail("free_T %d: %s", own, alloc::err);
    if (alloc::live) cx.fail("free_T %d: %" PRIu64 " blocks (%" PRIu64 " bytes) are still allocated after the result was released", own, alloc::live, alloc::live_bytes);
    if (!(salt % 64) && Lab::count_fds() != f0) cx.fail("open descriptors: %d before, %d after", f0, Lab::count_fds());
    cx.state(mc::hash(in.data(), n, off)); cx.outcome(mc::hash(alloc::reqs, peak)); cx.transitions() += alloc::reqs; cx.traces()++;
}
static std::vector<std::pair<std::string, mc::Bytes>> contents(bool th)
{
    std::vector<std::pair<std::string, mc::Bytes>> v; mc::Bytes b; auto S = [](const char *s) { return mc::Bytes(s, s + strlen(s)); };
    v.push_back({"banana", S("banana")}); v.push_back({"ba, marker row last", S("ba")}); v.push_back({"one byte", S("a")}); v.push_back({"empty", {}});
    inputs::base_word(5, 4097, b); v.push_back({"Fibonacci 4097", b}); inputs::base_word(9, 10000, b); v.push_back({"ramp 10000", b});
    if (th) { inputs::base_word(14, 70000, b); v.push_back({"mississippi.. 70000", b}); inputs::base_word(11, 4096, b); v.push_back({"noise 4096", b}); }
    inputs::base_word(14, 1200000, b); v.push_back({"mississippi.. 1200000", b}); // single deviations, two prior states
    return v;
}
static void judge(const Run &r, const std::string &what, mc::Cx &cx)
{
    if (r.rep.outcome != RETURNED && r.rep.outcome != THREW) return;    // dead runs are not this property's business
    const char *o = r.rep.outcome == RETURNED ? "returned" : "threw"; std::string tr = r.trace(); if (tr.size() > 900) tr.resize(900);
    if (r.rep.err[0]) cx.fail("%s: %s. calls: %s", what.c_str(), r.rep.err, tr.c_str());
    if (r.rep.live) cx.fail("%s: bwt_file %s %s and %" PRIu64 " blocks are still allocated. calls: %s", what.c_str(), o, r.rep.what, r.rep.live, tr.c_str());
    if (r.rep.fds) cx.fail("%s: bwt_file %s %s and %d descriptors are still open. calls: %s", what.c_str(), o, r.rep.what, r.rep.fds, tr.c_str());
    uint64_t h = mc::hash(r.rep.outcome, r.evs.size()); for (auto &e : r.evs) h = mc::hash(h, e.kind * 8 + e.role + mc::hash(e.ret, 3)); cx.state(h); cx.outcome(mc::hash(r.rep.outcome, r.rep.reqs)); cx.transitions() += r.evs.size(); cx.traces()++;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C07"; ex.args(argc, argv); bool th = ex.thorough; L.dir = ex.workdir;
    ex.worker_init = [=]() { alloc::init(th ? 3ULL << 30 : 1ULL << 30); };
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull};
    auto WW = std::make_shared<std::vector<uint64_t>>(W); std::vector<inputs::Space> sp = inputs::small(th ? 2 : 1), st = inputs::structured(1);
    for (auto &s : st) sp.push_back(s);
    for (auto &s : sp)
    {
        if (s.size > (th ? 300000 : 50000)) continue;
        bool big = s.name.find("large") != std::string::npos || s.name.find("64k") != std::string::npos || s.name.find("medium") != std::string::npos || s.size > (th ? 60000 : 11000); uint64_t nw = big ? 1 : W.size();
        ex.add(s.name + "*ledger", s.rule + ", x " + std::to_string(nw) + " position origins, both ownership modes alternating", s.size * nw,
               [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i / nw, b); one(b, (*WW)[i % nw], (i / nw + i % nw) & 1, cx, i); },
               [=](uint64_t i) { return "origin " + std::to_string((*WW)[i % nw]) + " " + inputs::show(s, i / nw); }, s.timeout, s.chunk);
    }
    auto C = std::make_shared<std::vector<std::pair<std::string, mc::Bytes>>>(contents(th)); const int MAXE = 48;
    auto go = [=](const mc::Bytes &T, int prior, const std::vector<Dev> &d) {
        if (!ready) { L.init(L.dir); ready = true; }
        flbwt_verify_base_offset = 0; L.clean(); Lab::put(L.in, T); L.a_in = L.in; L.a_out = prior == 1 ? L.in : L.out; if (prior == 2) Lab::put(L.out, mc::Bytes(20000, 1)); return L.run(d, false, {}, file_body(L)); };
    auto priors = {"no output yet", "output names the input", "longer output there"}; std::vector<std::string> PR(priors.begin(), priors.end());
    ex.add("bwt_file-faults", "every file system call of bwt_file x every error, short count, end of file (once, from there on, and pairs) x contents x prior states of the output path (of a run of more than 48 calls the first and the last 24; the content of 1200000 bytes without pairs)", C->size() * 3 * MAXE,
           [=](uint64_t i, mc::Cx &cx) {
               mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(3); const mc::Bytes &T = (*C)[d.v].second; const bool large = T.size() > 1000000; if (large && prior > 1) return;
               Run base = go(T, prior, {}); judge(base, "no fault", cx); if (at >= (int)base.evs.size()) return;
               at = event_of_slot(at, MAXE, base.evs.size());
               for (auto &a : answers(base.evs[at], at, true))
               {
                   cx.note("%s", show(a).c_str()); Run r = go(T, prior, {a}); judge(r, show(a), cx); if (a.persist || large || (!th && prior)) continue;
                   for (int j = at + 1; j < (int)r.evs.size(); j++) for (auto &b : answers(r.evs[j], j, false)) { cx.note("%s; %s", show(a).c_str(), show(b).c_str()); Run q = go(T, prior, {a, b}); judge(q, show(a) + "; " + show(b), cx); }
               }
           }, [=](uint64_t i) { mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(3); return "first deviation at call slot " + std::to_string(at) + ", " + PR[prior] + ", content: " + (*C)[d.v].first; }, 600, 1);
    // unusable files as they really occur
    std::vector<std::string> K{"missing input", "input in a missing directory", "directory as input", "pipe as input", "/dev/null as input", "/dev/zero as input", "output in a missing directory", "directory as output", "/dev/full as output, short", "/dev/full as output, long", "link to itself as input", "link to itself as output", "valid", "pipe as output", "name too long"};
    ex.add("bwt_file-kinds", "unusable and unusual input and output paths, alone and after each other (all ordered pairs of calls in one process)", K.size() * K.size(),
           [=](uint64_t i, mc::Cx &cx) {
               if (!ready) { L.init(L.dir); ready = true; }
               auto set = [=](int k) {
                   L.clean(); rmdir((L.dir + "/d").c_str()); mc::Bytes b; inputs::base_word(5, k == 9 ? 20000 : 50, b); Lab::put(L.in, b); L.a_in = L.in; L.a_out = L.out;
                   switch (k) { case 0: L.a_in = L.dir + "/none"; break; case 1: L.a_in = L.dir + "/none/x"; break; case 2: mkdir((L.a_in = L.dir + "/d").c_str(), 0755); break; case 3: { mkfifo((L.a_in = L.dir + "/p").c_str(), 0644); int fd = open(L.a_in.c_str(), O_RDWR); (void)fd; break; } case 4: L.a_in = "/dev/null"; break; case 5: L.a_in = "/dev/zero"; break; case 6: L.a_out = L.dir + "/none/y"; break; case 7: mkdir((L.a_out = L.dir + "/d").c_str(), 0755); break; case 8: case 9: L.a_out = "/dev/full"; break;
                   case 10: if (symlink("l", (L.a_in = L.dir + "/l").c_str())) {} break; case 11: if (symlink("l", (L.a_out = L.dir + "/l").c_str())) {} break; case 13: { mkfifo((L.a_out = L.dir + "/p").c_str(), 0644); int fd = open(L.a_out.c_str(), O_RDWR); (void)fd; break; } case 14: L.a_in = L.dir + "/" + std::string(300, 'x'); break; default: break; } };
               fflush(stdout); fflush(stderr); memset((void *)L.rep, 0, sizeof *L.rep); int k[2] = {(int)(i / K.size()), (int)(i % K.size())}; std::string what; static int *done = nullptr; if (!done) done = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *done = 0;
               flbwt_verify_base_offset = 0; pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
               if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(20); signal(SIGPIPE, SIG_IGN); for (int j = 0; j < 2; j++) { set(k[j]); file_body(L)(); if (L.rep->live || L.rep->fds || L.rep->err[0]) break; *done = j + 1; } _exit(0); }
               int st; while (waitpid(p, &st, 0) < 0) {}
               if (WIFEXITED(st) && *done < 2) { Run r; r.rep = *L.rep; judge(r, K[k[*done]] + (*done ? " (second call)" : ""), cx); }
               cx.state(mc::hash(i, 99)); cx.transitions() += 2; cx.traces()++;
           }, [=](uint64_t i) { return K[i / K.size()] + ", then " + K[i % K.size()]; });
    ex.assumptions = {"the string is followed by one zero byte", "blocks that the C library allocates for its own streams are seen through their descriptors only"};
    return ex.main();
}

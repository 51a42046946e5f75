// C05: a kill at every file system call and at every memory request, every failure of the reading side;
// the files are compared at every step of every run.
#define MC_ALLOC_IMPL
#include "fault.hpp"
#include "inputs.hpp"
using namespace fault;
static Lab L; static bool ready = false;
static const char *priors[] = {"no output yet", "longer output there", "output names the input", "shorter output there", "output is a symbolic link to an older output"};
static mc::Bytes before; static bool existed; static const mc::Bytes *T0; static int prior0; static std::string broken;

static std::vector<std::pair<std::string, mc::Bytes>> contents(bool th)
{
    std::vector<std::pair<std::string, mc::Bytes>> v; mc::Bytes b; auto S = [](const char *s) { return mc::Bytes(s, s + strlen(s)); };
    v.push_back({"banana", S("banana")}); v.push_back({"one byte", S("a")}); v.push_back({"marker row last", S("ba")});
    inputs::base_word(5, 4096, b); v.push_back({"Fibonacci 4096", b}); inputs::base_word(5, 4097, b); v.push_back({"Fibonacci 4097", b}); inputs::base_word(9, 10000, b); v.push_back({"ramp 10000", b});
    inputs::base_word(14, 70000, b); v.push_back({"mississippi.. 70000", b});
    if (th) for (size_t n : {2u, 4095u, 8192u, 20000u, 131073u}) { inputs::base_word(6, n, b); v.push_back({"Thue-Morse " + std::to_string(n), b}); inputs::base_word(11, n, b); v.push_back({"noise " + std::to_string(n), b}); }
    inputs::base_word(14, 1200000, b); v.push_back({"mississippi.. 1200000", b}); // the last one: two prior states, not in the memory group
    return v;
}
static void setup(const mc::Bytes &T, int prior)
{
    if (!ready) { L.init(L.dir); ready = true; }
    L.clean(); Lab::put(L.in, T); L.a_in = L.in; L.a_out = prior == 2 ? L.in : L.out;
    if (prior == 1) Lab::put(L.out, mc::Bytes(T.size() + 1000, 0xAB)); if (prior == 3) Lab::put(L.out, mc::Bytes(5, 0xCD));
    if (prior == 4) { Lab::put(L.dir + "/target", mc::Bytes(77, 0xEF)); if (symlink((L.dir + "/target").c_str(), L.out.c_str())) { perror("symlink"); _exit(2); } }
    existed = Lab::get(L.a_out, before); T0 = &T; prior0 = prior; broken.clear();
}
static std::string differs() // is the output as it was before?
{
    static mc::Bytes b; bool ex = Lab::get(L.a_out, b); struct stat sb;
    if (ex != existed) return ex ? "the output file has been created" : "the previous output file is gone";
    if (ex && b != before) return prior0 == 2 ? "the input, which is also the output, has been changed" : "the previous output file has been changed (" + std::to_string(before.size()) + " bytes before, " + std::to_string(b.size()) + " now)";
    if (prior0 == 4 && (lstat(L.out.c_str(), &sb) || !S_ISLNK(sb.st_mode))) return "the symbolic link at the output path is gone";
    return "";
}
static std::string input_ok() { static mc::Bytes b; if (prior0 == 2) return ""; if (!Lab::get(L.in, b)) return "the input file is gone"; return b == *T0 ? "" : "the input file has been changed"; }
static void stop(const Run &r, const char *)
{
    if (!broken.empty()) return;
    std::string e = input_ok(); if (e.empty() && r.in_read < T0->size()) { e = differs(); if (!e.empty()) e += " although only " + std::to_string(r.in_read) + " of the " + std::to_string(T0->size()) + " input bytes have been read"; }
    if (!e.empty()) broken = "after call #" + std::to_string(r.evs.size() - 1) + " [" + kname(r.evs.back().kind) + " of the " + rname(r.evs.back().role) + "]: " + e;
}
static Run go(const mc::Bytes &T, int prior, const std::vector<Dev> &d, bool program, mc::Cx &cx)
{
    setup(T, prior); L.at_stop = stop; Run r = L.run(d, program, {L.cli, L.a_in, L.a_out}, file_body(L)); L.at_stop = nullptr;
    std::string what; for (auto &x : d) what += (what.empty() ? "" : "; ") + show(x); if (what.empty()) what = "undisturbed run";
    std::string tr = r.trace(); if (tr.size() > 900) tr.resize(900);
    if (!broken.empty()) cx.fail("%s: %s. calls: %s", what.c_str(), broken.c_str(), tr.c_str());
    // the state that is left when the run is over or dead
    std::string e = input_ok(); if (e.empty() && r.in_read < T.size()) e = differs();
    if (!e.empty()) cx.fail("%s, run %s: %s (%" PRIu64 " of %zu input bytes were read). calls: %s", what.c_str(), how_ended(r, program).c_str(), e.c_str(), r.in_read, T.size(), tr.c_str());
    uint64_t h = mc::hash(T.data(), T.size(), program * 8 + prior); for (auto &v : r.evs) h = mc::hash(h, v.kind * 8 + v.role + mc::hash(v.ret, 3)); for (auto &x : d) h = mc::hash(h, mc::hash(x.at * 8 + x.what, x.val)); cx.state(h); cx.outcome(mc::hash(r.status, mc::hash(before.data(), before.size(), r.evs.size()))); cx.transitions() += r.evs.size(); cx.traces()++;
    return r;
}
static uint64_t own_requests(const mc::Bytes &T)
{
    static mc::Bytes t; t = T; t.push_back(0); alloc::reset(); alloc::fill = 0xFF; alloc::realloc_mode = 1;
    flbwt::BWT_result *r; uint64_t q; { alloc::On on; r = flbwt::bwt_string(t.data(), T.size(), false); q = alloc::reqs; }
    delete[] r->BWT; free(r); alloc::reset(); return q;
}
static uint64_t kill_at;
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C05"; ex.args(argc, argv); bool th = ex.thorough; L.dir = ex.workdir; L.cli = ex.cli; ex.counters.push_back("kills"); ex.counters.push_back("injections");
    ex.worker_init = []() { alloc::init(64ULL << 20); };
    auto C = std::make_shared<std::vector<std::pair<std::string, mc::Bytes>>>(contents(th)); const int MAXE = th ? 160 : 48; uint64_t np = 5, nc = C->size(); const std::string LONG_RUNS = " (of a run of more than " + std::to_string(MAXE) + " calls the first and the last " + std::to_string(MAXE / 2) + "; the content of 1200000 bytes only with no output or a longer one there)";
    auto show_case = [=](uint64_t i) { mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(np); return "call slot " + std::to_string(at) + ", " + priors[prior] + ", content: " + (*C)[d.v % nc].first; };
    for (int program = 0; program < 2; program++)
    {
        std::string who = program ? "the bwt program" : "bwt_file";
        ex.add(std::string(program ? "program" : "bwt_file") + "-kills", "a kill before and after every file system call of " + who + " x contents x prior states of the output path; both files compared after every call" + LONG_RUNS, nc * np * MAXE,
               [=](uint64_t i, mc::Cx &cx) {
                   mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(np); const mc::Bytes &T = (*C)[d.v].second; if (T.size() > 1000000 && prior > 1) return;
                   Run base = go(T, prior, {}, program, cx); if (at >= (int)base.evs.size()) return;
                   at = event_of_slot(at, MAXE, base.evs.size());
                   for (int w : {KILL_BEFORE, KILL_AFTER}) { go(T, prior, {{at, w, 0, false}}, program, cx); cx.ctr("kills")++; }
               }, show_case, 300, 8);
        ex.add(std::string(program ? "program" : "bwt_file") + "-faults", "every answer (errors, short counts, end of file; once or from there on, and followed by a second one on the input) to every file system call of " + who + " x contents x prior states; both files compared after every call" + LONG_RUNS, nc * np * MAXE,
               [=](uint64_t i, mc::Cx &cx) {
                   mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(np); const mc::Bytes &T = (*C)[d.v].second; if (T.size() > 1000000 && prior > 1) return;
                   Run base = go(T, prior, {}, program, cx); if (at >= (int)base.evs.size()) return;
                   at = event_of_slot(at, MAXE, base.evs.size());
                   for (auto &a : answers(base.evs[at], at, true))
                   {
                       cx.note("%s", show(a).c_str()); Run r = go(T, prior, {a}, program, cx); cx.ctr("injections")++;
                       if (base.evs[at].role != IN || a.persist || (!th && (program || prior == 3 || T.size() > 50000))) continue;
                       for (int j = at + 1; j < (int)r.evs.size(); j++) if (r.evs[j].role == IN) for (auto &b : answers(r.evs[j], j, false)) { cx.note("%s; %s", show(a).c_str(), show(b).c_str()); go(T, prior, {a, b}, program, cx); cx.ctr("injections")++; }
                   }
               }, show_case, 600, 1);
    }
    // before the transform exists: no later than the requests bwt_string alone makes
    const int STEP = 16; const uint64_t SL = 128; uint64_t na = th ? nc - 1 : 5;
    ex.add("bwt_file-memory", "each of the memory requests that bwt_string alone would make fails, fails with all later ones, or is where the run is killed, x contents x prior states: the transform is not complete there, so the output must be untouched", na * np * SL,
           [=](uint64_t i, mc::Cx &cx) {
               mc::Radix d(i); uint64_t slice = d.pick(SL); int prior = d.pick(np); const mc::Bytes &T = (*C)[d.v].second; uint64_t B = own_requests(T);
               uint64_t a = slice * STEP + 1, b = slice == SL - 1 ? B : std::min<uint64_t>(B, a + STEP - 1);
               for (uint64_t k = a; k <= b; k++)
                   for (int how = 0; how < 3; how++)
                   {
                       cx.note("memory request %" PRIu64 " %s", k, how == 0 ? "fails" : how == 1 ? "and all later ones fail" : "is where the run is killed");
                       // no tracer needed here: the child dies or reports by itself
                       setup(T, prior); kill_at = k; memset((void *)L.rep, 0, sizeof *L.rep);
                       auto body = file_body(L, [=]() { if (how < 2) { alloc::fail_at = k; alloc::persist = how == 1; } else alloc::on_request = []() { if (alloc::reqs >= kill_at) raise(SIGKILL); }; });
                       fflush(stdout); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
                       if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(20); body(); _exit(0); }
                       int st; while (waitpid(p, &st, 0) < 0) {}
                       std::string e = input_ok(); if (e.empty()) e = differs();
                       // a run that can do without this request may go on and complete
                       if (!e.empty() && input_ok().empty() && how < 2 && WIFEXITED(st) && L.rep->outcome == RETURNED && output_right(L.a_out, T).empty()) e.clear();
                       if (!e.empty()) cx.fail("memory request %" PRIu64 " of %" PRIu64 " %s: %s", k, B, how == 0 ? "fails" : how == 1 ? "and all later ones fail" : "is where the run is killed", e.c_str());
                       cx.state(mc::hash(mc::hash(T.data(), T.size(), prior), k * 4 + how)); cx.transitions()++; cx.traces()++; cx.ctr(how == 2 ? "kills" : "injections")++;
                   }
           }, [=](uint64_t i) { mc::Radix d(i); uint64_t s = d.pick(SL); int prior = d.pick(np); return "requests from " + std::to_string(s * STEP + 1) + " on, " + priors[prior] + ", content: " + (*C)[d.v].first; }, 300, 4);
    ex.assumptions = {"a killed process leaves on the file system what its completed system calls did (kill -9, not a power failure)", "the input counts as read when every byte of it was returned by some read (or mapped)", "bwt_file needs at least as many memory requests for the transform as bwt_string alone"};
    return ex.main();
}

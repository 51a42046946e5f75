// C04: every file system call of a run x every answer of the environment, single deviations, persistent
// ones and pairs, on bwt_file in a traced child and on the traced bwt program.
#define MC_ALLOC_IMPL
#include "fault.hpp"
#include "inputs.hpp"
using namespace fault;
static Lab L; static bool ready = false;

static std::vector<std::pair<std::string, mc::Bytes>> contents(bool th)
{
    std::vector<std::pair<std::string, mc::Bytes>> v; mc::Bytes b; auto S = [](const char *s) { return mc::Bytes(s, s + strlen(s)); };
    v.push_back({"banana-like, marker in the middle", S("banana")}); v.push_back({"marker row last", S("ba")}); v.push_back({"one byte", S("a")}); v.push_back({"marker row second", S("aab")});
    for (size_t n : {4088u, 4095u, 4096u, 4097u, 8192u, 10000u}) { inputs::base_word(5, n, b); v.push_back({"Fibonacci " + std::to_string(n), b}); }
    inputs::base_word(9, 5000, b); v.push_back({"ramp 5000", b}); b = mc::Bytes(9000, 'x'); v.push_back({"x^9000", b}); b.assign(6000, 'a'); b[0] = 'b'; v.push_back({"ba^5999, marker row last", b});
    inputs::base_word(14, 70000, b); v.push_back({"mississippi.. 70000", b});
    if (th) for (size_t n : {2u, 3u, 4089u, 4090u, 12288u, 20000u, 65536u, 131073u}) { inputs::base_word(6, n, b); v.push_back({"Thue-Morse " + std::to_string(n), b}); inputs::base_word(11, n, b); v.push_back({"noise " + std::to_string(n), b}); }
    inputs::base_word(14, 1200000, b); v.push_back({"mississippi.. 1200000", b}); // the last one: single deviations, no output yet
    return v;
}
static const char *priors[] = {"no output yet", "longer output there", "output names the input", "shorter output there"};
static void setup(const mc::Bytes &T, int prior)
{
    if (!ready) { L.init(L.dir); ready = true; }
    L.clean(); Lab::put(L.in, T); L.a_in = L.in; L.a_out = prior == 2 ? L.in : L.out;
    if (prior == 1) Lab::put(L.out, mc::Bytes(T.size() + 1000, 0xAB)); if (prior == 3) Lab::put(L.out, mc::Bytes(5, 0xCD));
}
static Run go(const mc::Bytes &T, int prior, const std::vector<Dev> &d, bool program)
{ setup(T, prior); return L.run(d, program, {L.cli, L.a_in, L.a_out}, file_body(L)); }
static void judge(const Run &r, const mc::Bytes &T, const std::vector<Dev> &d, bool program, mc::Cx &cx)
{
    std::string what; for (auto &x : d) what += (what.empty() ? "" : "; ") + show(x) + (x.at < (int)r.evs.size() ? std::string(" [") + kname(r.evs[x.at].kind) + " of the " + rname(r.evs[x.at].role) + "]" : "");
    if (what.empty()) what = "no fault";
    bool ok = program ? WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0 && !r.hung : r.rep.outcome == RETURNED && !r.hung && WIFEXITED(r.status);
    std::string tr = r.trace(); if (tr.size() > 900) tr.resize(900);
    if (r.hung) cx.fail("%s: the run does not end. calls: %s", what.c_str(), tr.c_str());
    if (ok) { std::string e = output_right(L.a_out, T); if (!e.empty()) cx.fail("%s: reported success, but %s. calls: %s", what.c_str(), e.c_str(), tr.c_str()); }
    else if (WIFSIGNALED(r.status) && !(program && WTERMSIG(r.status) == SIGABRT)) cx.fail("%s: %s. calls: %s", what.c_str(), how_ended(r, program).c_str(), tr.c_str());
    else if (!program && r.rep.outcome != THREW) cx.fail("%s: %s. calls: %s", what.c_str(), how_ended(r, program).c_str(), tr.c_str());
    else if (d.empty()) cx.fail("no fault was injected, but the run failed: %s. calls: %s", how_ended(r, program).c_str(), tr.c_str());
    if (!program && r.rep.err[0] && strncmp(r.rep.err, "block from", 10)) cx.fail("%s: %s", what.c_str(), r.rep.err);
    uint64_t h = mc::hash(T.data(), T.size(), program); for (auto &e : r.evs) h = mc::hash(h, e.kind * 8 + e.role + mc::hash(e.ret, 3)); cx.state(h); cx.outcome(mc::hash(ok, h)); cx.transitions() += r.evs.size(); cx.traces()++;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C04"; ex.args(argc, argv); bool th = ex.thorough; L.dir = ex.workdir; L.cli = ex.cli; ex.counters.push_back("injections");
    ex.worker_init = []() { alloc::init(64ULL << 20); };
    auto C = std::make_shared<std::vector<std::pair<std::string, mc::Bytes>>>(contents(th)); const int MAXE = th ? 160 : 48; uint64_t np = 4; const std::string LONG_RUNS = " (of a run of more than " + std::to_string(MAXE) + " calls the first and the last " + std::to_string(MAXE / 2) + "; the content of 1200000 bytes only with no output yet)";
    for (int program = 0; program < 2; program++)
        for (int pairs = 0; pairs < 2; pairs++)
        {
            uint64_t nc = pairs ? (th ? C->size() - 1 : program ? 1 : 8) : C->size(), pr = pairs && !th ? (program ? 1 : 3) : np;
            auto pick = [=](uint64_t k) { static const uint64_t some[] = {0, 5, 7, 9, 10, 13, 1, 2}; return th || !pairs ? k : some[k]; };
            ex.add(std::string(program ? "program-" : "bwt_file-") + (pairs ? "pairs" : "single"), std::string("every file system call of ") + (program ? "the bwt program" : "bwt_file") + " x every error, short count, end of file (" + (pairs ? "two deviations in one run, all pairs" : "one deviation, or the same from there on") + ") x " + std::to_string(nc) + " contents x " + std::to_string(pr) + " prior states of the output path" + LONG_RUNS, nc * pr * MAXE,
                   [=](uint64_t i, mc::Cx &cx) {
                       mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(pr); const mc::Bytes &T = (*C)[pick(d.v)].second;
                       if (T.size() > 1000000 && prior) return;
                       Run base = go(T, prior, {}, program); judge(base, T, {}, program, cx);
                       if (at >= (int)base.evs.size()) return;
                       at = event_of_slot(at, MAXE, base.evs.size());
                       for (auto &a : answers(base.evs[at], at, !pairs))
                       {
                           cx.note("%s", show(a).c_str()); Run r = go(T, prior, {a}, program); judge(r, T, {a}, program, cx); cx.ctr("injections")++;
                           if (pairs) for (int j = at + 1; j < (int)r.evs.size(); j++) for (auto &b : answers(r.evs[j], j, false)) { cx.note("%s; %s", show(a).c_str(), show(b).c_str()); Run q = go(T, prior, {a, b}, program); judge(q, T, {a, b}, program, cx); cx.ctr("injections")++; }
                       }
                   },
                   [=](uint64_t i) { mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(pr); return "first deviation at call slot " + std::to_string(at) + ", " + priors[prior] + ", content: " + (*C)[pick(d.v)].first; }, 600, 1);
        }
    ex.assumptions = {"a failing close or fsync of the output means that data were lost (the tracer then cuts the file to half), except EINTR", "the operating system never answers a write of at least one byte with 0", "a failing close still releases the descriptor, as on Linux"};
    return ex.main();
}

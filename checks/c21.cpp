// C21: process and file system before and after a call: nothing but the result is left.
#define MC_ALLOC_IMPL
#include "fault.hpp"
#include "inputs.hpp"
#include "world.hpp"
uint64_t flbwt_verify_base_offset = 0;
using namespace fault;
static Lab L; static bool ready = false; static int cap_out = -1, cap_err = -1;
static off_t size_of(int fd) { struct stat s; return fstat(fd, &s) ? 0 : s.st_size; }
static std::string said(int fd) { char b[200]; ssize_t k = pread(fd, b, sizeof b - 1, 0); if (k < 0) k = 0; b[k] = 0; for (ssize_t i = 0; i < k; i++) if (b[i] == '\n') b[i] = ' '; return b; }

// ---- bwt_string, in this process
static void capture()
{
    static bool done = false; if (done) return; done = true;
    cap_out = memfd_create("out", 0); dup2(cap_out, 1); cap_err = memfd_create("err", 0);
    mkdir((L.dir + "/cwd").c_str(), 0755); if (chdir((L.dir + "/cwd").c_str())) {}
    int in = memfd_create("in", 0); if (write(in, "0123456789", 10)) {} lseek(in, 3, SEEK_SET); dup2(in, 0); close(in);
    rlimit sl; if (!getrlimit(RLIMIT_STACK, &sl) && sl.rlim_cur > (16u << 20)) { sl.rlim_cur = 16u << 20; setrlimit(RLIMIT_STACK, &sl); }
    for (const char *v : {"LC_ALL", "LANG"}) setenv(v, "C.UTF-8", 1); // a locale that differs from the one of the process
}
static const char *kinds[] = {"a right call", "a null string", "length 0", "the memory request in the middle fails", "the first memory request fails", "the last memory request fails"};
static void memory(const mc::Bytes &in, uint64_t off, bool own, int kind, mc::Cx &cx)
{
    capture(); static mc::Bytes buf; size_t n = in.size(); static world::State a, b; static uint64_t reqs = 0;
    flbwt_verify_base_offset = off; char what[200]; snprintf(what, sizeof what, "%s, free_T %d", kinds[kind], own); cx.note("%s", what);
    for (int pass = kind >= 3 ? 0 : 1; pass < 2; pass++) // pass 0 counts the requests
    {
        buf = in; buf.push_back(0); alloc::reset(); alloc::fill = alloc::DIRTY; alloc::realloc_mode = n > 3000 ? 1 : 2;
        uint8_t *T = buf.data(); if (own) { alloc::On on; T = (uint8_t *)malloc(n + 1); memcpy(T, buf.data(), n + 1); }
        uint64_t r0 = alloc::reqs; if (pass && kind >= 3) { alloc::fail_at = r0 + (kind == 3 ? reqs / 2 : kind == 4 ? 1 : reqs); alloc::persist = true; }
        world::arm(); world::state(a); world::arm(); flbwt::BWT_result *r = nullptr; off_t e0 = size_of(2);
        try { alloc::On on; r = flbwt::bwt_string(kind == 1 ? nullptr : T, kind == 2 ? 0 : n, own); } catch (std::exception &) {}
        alloc::fail_at = 0; reqs = alloc::reqs - r0; if (r) { delete[] r->BWT; free(r); }
        world::state(b); std::string d = world::diff(a, b); if (!d.empty()) cx.fail("%s: after the call %s", what, d.c_str());
        fflush(stdout); std::cout.flush(); std::clog.flush(); if (size_of(cap_out)) { std::string s = said(cap_out); if (ftruncate(cap_out, 0)) {} cx.fail("%s: the call printed on standard output: %s", what, s.c_str()); }
        if (size_of(2) != e0) cx.fail("%s: the call printed on standard error", what);
        cx.state(mc::hash(mc::hash(in.data(), n, off), kind * 2 + own)); cx.outcome(mc::hash(reqs, kind)); cx.transitions() += reqs; cx.traces()++;
    }
}
// ---- bwt_file and the program
struct Page { char diff[300]; char mid[300]; };
static Page *page;
static const char *decoy[] = {".tmp", ".bak", "~", ".part", ".new", ".old", ".lock", ".bwt", ".temp", "_tmp", ".1", ".log", ".swp", ".orig"};
static void setup(const mc::Bytes &T, int prior, bool decoys)
{
    if (!ready)
    {
        std::string w = L.dir; L.init(w); ready = true; page = (Page *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        cap_out = memfd_create("out", 0); cap_err = memfd_create("err", 0);
    }
    L.clean(); for (const char *d : {"cwd", "home", "tmp"}) { std::string p = L.dir + "/" + d; mkdir(p.c_str(), 0755); DIR *x = opendir(p.c_str()); if (x) { while (dirent *e = readdir(x)) if (e->d_name[0] != '.') unlink((p + "/" + e->d_name).c_str()); closedir(x); } }
    Lab::put(L.in, T); chmod(L.in.c_str(), 0640); L.a_in = L.in; L.a_out = prior == 1 ? L.in : L.out;
    if (prior == 2) { Lab::put(L.out, mc::Bytes(20000, 1)); chmod(L.out.c_str(), 0600); }
    if (prior == 3) L.a_out = L.dir + "/none/out";
    if (prior == 4) L.a_in = L.dir + "/missing";
    if (prior == 5) { L.a_out = L.dir + "/cwd"; }
    if (prior == 6) { Lab::put(L.dir + "/target", mc::Bytes(30, 7)); if (symlink("target", L.out.c_str())) {} }
    if (decoys) for (const char *s : decoy) { Lab::put(L.in + s, mc::Bytes(9, 'd')); Lab::put(L.out + s, mc::Bytes(9, 'e')); Lab::put(L.dir + "/cwd/out" + s, mc::Bytes(9, 'f')); }
    // old modification times, so that a rewrite with the same bytes is seen
    DIR *d = opendir(L.dir.c_str()); while (dirent *e = readdir(d)) if (e->d_name[0] != '.') { timespec t[2] = {{1000000000, 5}, {1000000000, 5}}; utimensat(dirfd(d), e->d_name, t, AT_SYMLINK_NOFOLLOW); } closedir(d);
    if (ftruncate(cap_out, 0) || ftruncate(cap_err, 0)) {} lseek(cap_out, 0, SEEK_SET); lseek(cap_err, 0, SEEK_SET); memset(page, 0, sizeof *page);
}
static std::vector<std::string> PR{"no output yet", "output names the input", "longer output there", "output in a missing directory", "missing input", "directory as output", "output is a symbolic link"};
static const mode_t masks[] = {027, 0, 077}; static int world_no = 0; // what the caller's process is like
static Run once(const mc::Bytes &T, int prior, bool decoys, const std::vector<Dev> &dv, bool program, uint64_t fail, const std::string &what, mc::Cx &cx)
{
    flbwt_verify_base_offset = 0; setup(T, prior, decoys); world::Tree a, b; world::tree(L.dir, a); a.erase(".stdout");
    auto surround = []() { if (chdir((L.dir + "/cwd").c_str())) {} umask(masks[world_no]); setenv("HOME", (L.dir + "/home").c_str(), 1); setenv("TMPDIR", (L.dir + "/tmp").c_str(), 1); for (const char *v : {"LC_ALL", "LANG"}) setenv(v, "C.UTF-8", 1); };
    auto inner = file_body(L, [=]() { if (fail) { alloc::fail_at = fail; alloc::persist = true; } });
    auto body = [&]() {
        static world::State s, t; surround(); dup2(cap_out, 1); dup2(cap_err, 2);
        int in = memfd_create("in", 0); if (write(in, "0123456789", 10)) {} lseek(in, 3, SEEK_SET); dup2(in, 0); close(in);
        if (world_no == 1) { signal(SIGPIPE, SIG_IGN); setlocale(LC_ALL, "C.UTF-8"); signal(SIGXFSZ, SIG_IGN); std::cerr.setf(std::ios::hex, std::ios::basefield); }
        if (world_no == 2) { fesetround(FE_UPWARD); signal(SIGPIPE, [](int) {}); sigset_t q; sigemptyset(&q); sigaddset(&q, SIGUSR1); sigprocmask(SIG_BLOCK, &q, nullptr); }
        world::arm(); world::state(s); world::arm(); inner(); alloc::fail_at = 0; world::state(t); std::string d = world::diff(s, t); snprintf(page->diff, sizeof page->diff, "%s", d.c_str()); exit(0); };
    if (program) { surround(); std::vector<std::string> args{L.cli, L.a_in, L.a_out}; }
    Run r = L.run(dv, program, program ? std::vector<std::string>{L.cli, L.a_in, L.a_out} : std::vector<std::string>{}, body);
    if (program) umask(022);
    if (r.hung || WIFSIGNALED(r.status) || (!program && r.rep.outcome == RUNNING) || WEXITSTATUS(r.status) >= 126)
    {
        if (program && WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT) {} // an exception nobody catches: the program's way to report a failure
        else return r;    // dead runs are judged by C04, C05 and C12
    }
    bool good = program ? WIFEXITED(r.status) && !WEXITSTATUS(r.status) : r.rep.outcome == RETURNED; std::string tr = r.trace(); if (tr.size() > 700) tr.resize(700);
    const char *w = what.c_str(), *how = good ? "success" : "failure";
    if (page->diff[0]) cx.fail("%s: after bwt_file (%s) %s. calls: %s", w, how, page->diff, tr.c_str());
    if (!program) { if (size_of(cap_out)) cx.fail("%s: bwt_file (%s) printed on standard output: %s", w, how, said(cap_out).c_str()); if (size_of(cap_err)) cx.fail("%s: bwt_file (%s) printed on standard error: %s", w, how, said(cap_err).c_str()); }
    else if (good && !L.captured().empty()) cx.fail("%s: the program succeeded and printed: %s", w, L.captured().substr(0, 150).c_str());
    for (auto &f : r.foreign) { struct stat sb; if (f != L.a_out && !lstat(f.c_str(), &sb) && !S_ISCHR(sb.st_mode)) cx.fail("%s: the run (%s) wrote a file outside its own paths: %s", w, how, f.c_str()); }
    std::string res = prior == 1 ? "in" : prior == 6 ? "target" : "out", rel = prior == 3 || prior == 5 ? "" : res;
    world::tree(L.dir, b); b.erase(".stdout"); std::string d = world::diff(a, b, rel); if (!d.empty()) cx.fail("%s: after the run (%s) %s. calls: %s", w, how, d.c_str(), tr.c_str());
    auto x = a.find(rel), y = b.find(rel);
    if (x != a.end() && y != b.end()) { if (x->second.mode != y->second.mode) cx.fail("%s: the output file had mode %o and now has %o", w, x->second.mode, y->second.mode); if (x->second.nlink != y->second.nlink) cx.fail("%s: the output file has another number of links", w); }
    if (x == a.end() && y != b.end() && y->second.mode != (S_IFREG | (0666 & ~masks[world_no]))) cx.fail("%s: with umask %03o the new output file has mode %o", w, masks[world_no], y->second.mode);
    if (good && x != a.end() && y == b.end()) cx.fail("%s: the output file is gone", w);
    uint64_t h = mc::hash(r.status, r.evs.size() + 100 * prior + decoys * 77); for (auto &e : r.evs) h = mc::hash(h, e.kind * 8 + e.role + mc::hash(e.ret, 3)); cx.state(mc::hash(h, fail)); cx.outcome(mc::hash(r.rep.outcome, r.rep.reqs)); cx.transitions() += r.evs.size(); cx.traces()++;
    return r;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C21"; ex.args(argc, argv); bool th = ex.thorough; L.dir = ex.workdir; L.cli = ex.cli;
    ex.worker_init = [=]() { alloc::init(th ? 3ULL << 30 : 1ULL << 30); };
    auto S = [](const char *s) { return mc::Bytes(s, s + strlen(s)); }; auto C = std::make_shared<std::vector<mc::Bytes>>(); mc::Bytes b;
    for (auto x : {"banana", "ba", "a", ""}) C->push_back(S(x)); for (int k : {4097, 10000}) { inputs::base_word(k & 1 ? 5 : 9, k, b); C->push_back(b); } inputs::base_word(14, 70000, b); C->push_back(b); if (th) { inputs::base_word(11, 300000, b); C->push_back(b); }
    inputs::base_word(14, 1200000, b); C->push_back(b); // in the fault groups with no output yet only
    auto cname = [=](uint64_t c) { return "content " + mc::show_bytes((*C)[c], 12); };
    // files first: they need the machine's disk, the rest does not
    const int MAXE = 48; const uint64_t NP = PR.size(), NC = C->size();
    ex.add("file", "bwt_file and the program: every content x prior state of the paths x neighbouring files with names derived from the paths x 3 callers (umask, signal actions, locale, rounding mode)", NC * NP * 12,
           [=](uint64_t i, mc::Cx &cx) { mc::Radix d(i); world_no = d.pick(3); int prior = d.pick(NP); bool dec = d.pick(2), prog = d.pick(2); once((*C)[d.v], prior, dec, {}, prog, 0, PR[prior], cx); },
           [=](uint64_t i) { mc::Radix d(i); d.pick(3); int prior = d.pick(NP); bool dec = d.pick(2), prog = d.pick(2); return std::string(prog ? "program, " : "bwt_file, ") + PR[prior] + (dec ? ", neighbours, " : ", ") + cname(d.v); });
    ex.add("file-faults", "every file system call of bwt_file x every error, short count and end of file (once, from there on), x contents x prior states (of a run of more than 48 calls the first and the last 24; the content of 1200000 bytes with no output yet only)", NC * NP * MAXE,
           [=](uint64_t i, mc::Cx &cx) {
               mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(NP); const mc::Bytes &T = (*C)[d.v]; const bool large = T.size() > 1000000; if (large && prior) return; bool dec = at & 1; world_no = (at + prior) % 3;
               Run base = once(T, prior, dec, {}, false, 0, PR[prior], cx); if (at >= (int)base.evs.size()) return;
               at = event_of_slot(at, MAXE, base.evs.size());
               for (auto &a : answers(base.evs[at], at, true))
               {
                   std::string w = PR[prior] + ", " + show(a); cx.note("%s", w.c_str()); Run r = once(T, prior, dec, {a}, false, 0, w, cx); if (a.persist || !th || large) continue;
                   for (int j = at + 1; j < (int)r.evs.size(); j++) for (auto &q : answers(r.evs[j], j, false)) once(T, prior, dec, {a, q}, false, 0, w + "; " + show(q), cx);
               }
           }, [=](uint64_t i) { mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(NP); return "deviation at call slot " + std::to_string(at) + ", " + PR[prior] + ", " + cname(d.v); }, 600, 1);
    ex.add("program-faults", "the same for the program", NC * 3 * MAXE,
           [=](uint64_t i, mc::Cx &cx) {
               mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(3); const mc::Bytes &T = (*C)[d.v]; if (T.size() > 1000000 && prior) return; world_no = (at + prior + 1) % 3;
               Run base = once(T, prior, false, {}, true, 0, PR[prior], cx); if (at >= (int)base.evs.size()) return;
               at = event_of_slot(at, MAXE, base.evs.size());
               for (auto &a : answers(base.evs[at], at, th)) { std::string w = PR[prior] + ", " + show(a); cx.note("%s", w.c_str()); once(T, prior, false, {a}, true, 0, w, cx); }
           }, [=](uint64_t i) { mc::Radix d(i); int at = d.pick(MAXE), prior = d.pick(3); return "deviation at call slot " + std::to_string(at) + ", " + PR[prior] + ", " + cname(d.v); }, 600, 1);
    ex.add("file-memory", "bwt_file with the k-th memory request and all later ones failing, for every k up to 120 (thorough 400)", 4 * (th ? 400 : 120),
           [=](uint64_t i, mc::Cx &cx) { int prior = i & 1 ? 2 : 0; world_no = i / 4 % 3; const mc::Bytes &T = (*C)[i & 2 ? 4 : 0]; std::string w = PR[prior] + ", memory request " + std::to_string(i / 4 + 1) + " fails"; cx.note("%s", w.c_str()); once(T, prior, true, {}, false, i / 4 + 1, w, cx); },
           [=](uint64_t i) { return "memory request " + std::to_string(i / 4 + 1) + " and all later ones fail"; });
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull};
    auto WW = std::make_shared<std::vector<uint64_t>>(W); std::vector<inputs::Space> sp = inputs::small(th ? 1 : 0), st = inputs::structured(1);
    for (auto &s : st) sp.push_back(s);
    for (auto &s : sp)
    {
        uint64_t stride = s.size > (th ? 300000 : 4000) ? 0 : 1; if (!stride) continue;
        bool big = s.name.find("large") != std::string::npos || s.name.find("64k") != std::string::npos || s.name.find("medium") != std::string::npos || s.name.find("long") != std::string::npos; bool rot = s.size > 300 && !th; uint64_t nw = rot || (big && !th) ? 1 : W.size(), nk = big && !th ? 1 : 6; // rot: one origin per input, in turn
        ex.add(s.name + "*process", s.rule + ", x " + std::to_string(nw) + (rot ? " position origin (in turn) x " : " position origins x ") + std::to_string(nk) + " outcomes (success, invalid arguments, failing memory), both ownership modes alternating", s.size * nw * nk,
               [=](uint64_t i, mc::Cx &cx) { mc::Radix d(i); uint64_t q = d.pick(nw); int k = d.pick(nk); uint64_t o = (*WW)[rot ? d.v % 5 : q]; static mc::Bytes x; s.gen(d.v, x); memory(x, o, (d.v + k) & 1, k, cx); },
               [=](uint64_t i) { mc::Radix d(i); uint64_t q = d.pick(nw); int k = d.pick(nk); uint64_t o = (*WW)[rot ? d.v % 5 : q]; return "origin " + std::to_string(o) + ", " + kinds[k] + ", " + inputs::show(s, d.v); }, s.timeout, s.chunk);
    }
    ex.assumptions = {"the string is followed by one zero byte", "errno, floating point exception flags, access times of the input and modification times of directories may change"};
    return ex.main();
}

// C11: every kind of invalid request, alone and combined, to bwt_string, bwt_file and the bwt program.
#define MC_ALLOC_IMPL
#include "fault.hpp"
#include "inputs.hpp"
#include <sys/socket.h>
#include <sys/un.h>
#include <stdexcept>
using namespace fault;
static Lab L; static bool ready = false; static uint8_t *region;
static void fresh() { if (!ready) { L.init(L.dir); ready = true; } L.clean(); rmdir((L.dir + "/d").c_str()); }

struct Path { const char *name; bool good; int needs_user; std::function<std::string()> make; };
static std::vector<Path> ins()
{
    auto sub = [](const char *s) { return L.dir + "/" + s; };
    return {{"a good file", true, 0, [=]() { Lab::put(L.in, {'b', 'a', 'n', 'a', 'n', 'a'}); return L.in; }},
            {"a missing file", false, 0, [=]() { return sub("none"); }}, {"a file in a missing directory", false, 0, [=]() { return sub("none/x"); }},
            {"a path below a file", false, 0, [=]() { Lab::put(sub("f"), {1}); return sub("f/x"); }}, {"an empty file", false, 0, [=]() { Lab::put(sub("e"), {}); return sub("e"); }},
            {"a directory", false, 0, [=]() { mkdir(sub("d").c_str(), 0755); return sub("d"); }}, {"the empty path", false, 0, [=]() { return std::string(); }},
            {"a dangling symbolic link", false, 0, [=]() { if (symlink("none", sub("l").c_str())) {} return sub("l"); }}, {"a symbolic link to itself", false, 0, [=]() { if (symlink("l", sub("l").c_str())) {} return sub("l"); }},
            {"a name that is too long", false, 0, [=]() { return sub("") + std::string(300, 'n'); }}, {"a path that is too long", false, 0, [=]() { std::string s = L.dir; while (s.size() < 5000) s += "/x"; return s; }},
            {"/dev/null", false, 0, [=]() { return std::string("/dev/null"); }}, {"a socket", false, 0, [=]() { int s = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; char cwd[4096]; if (getcwd(cwd, sizeof cwd) && chdir(L.dir.c_str()) == 0) { strcpy(a.sun_path, "s"); if (bind(s, (sockaddr *)&a, sizeof a)) {} if (chdir(cwd)) {} } close(s); return sub("s"); }},
            {"a pipe", false, 0, [=]() { mkfifo(sub("p").c_str(), 0644); int fd = open(sub("p").c_str(), O_RDWR); if (fd >= 0 && write(fd, "xyz", 3)) {} return sub("p"); }},
            {"a file without read permission, as an unprivileged user", false, 1, [=]() { Lab::put(L.in, {'b', 'a'}); chmod(L.in.c_str(), 0); return L.in; }}};
}
static std::vector<Path> outs()
{
    auto sub = [](const char *s) { return L.dir + "/" + s; };
    return {{"a new file", true, 0, [=]() { return L.out; }}, {"an existing file", true, 0, [=]() { Lab::put(L.out, mc::Bytes(40, 0x99)); return L.out; }},
            {"a file in a missing directory", false, 0, [=]() { return sub("none/y"); }}, {"a path below a file", false, 0, [=]() { Lab::put(sub("g"), {1}); return sub("g/x"); }},
            {"a directory", false, 0, [=]() { mkdir(sub("d").c_str(), 0755); return sub("d"); }}, {"the empty path", false, 0, [=]() { return std::string(); }},
            {"a symbolic link to itself", false, 0, [=]() { if (symlink("m", sub("m").c_str())) {} return sub("m"); }}, {"a name that is too long", false, 0, [=]() { return sub("") + std::string(300, 'o'); }},
            {"a dangling link into a missing directory", false, 0, [=]() { if (symlink("none/z", sub("z").c_str())) {} return sub("z"); }},
            {"a file without write permission, as an unprivileged user", false, 1, [=]() { Lab::put(L.out, mc::Bytes(40, 0x99)); chmod(L.out.c_str(), 0444); return L.out; }},
            {"a new file in a directory without write permission, as an unprivileged user", false, 2, [=]() { return sub("newfile"); }}};
}
static const char *what_ended(int st) { static char b[80]; if (WIFSIGNALED(st)) snprintf(b, 80, "was killed by %s", strsignal(WTERMSIG(st))); else snprintf(b, 80, "exited with %d", WEXITSTATUS(st)); return b; }
static void paths(int ci, int co, bool program, mc::Cx &cx)
{
    fresh(); auto I = ins(), O = outs(); const Path &a = I[ci], &b = O[co]; int user = std::max(a.needs_user, b.needs_user);
    std::string pi = a.make(), po = b.make(); chmod(L.dir.c_str(), user == 2 ? 0755 : 0777);
    mc::Bytes in0, out0, x; bool hi = a.good && Lab::get(L.in, in0), ho = Lab::get(L.out, out0); L.a_in = pi; L.a_out = po;
    bool unusable_in = !a.good, unusable_out = !b.good; std::string w = std::string("input ") + a.name + ", output " + b.name; cx.note("%s", w.c_str());
    memset((void *)L.rep, 0, sizeof *L.rep); auto body = file_body(L); fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(10); int null = open("/dev/null", O_RDWR); dup2(null, 0); dup2(null, 1); dup2(null, 2);
        if (program)
        {
            int exe = open(L.cli.c_str(), O_RDONLY); if (user && (setgid(65534) || setuid(65534))) _exit(125);
            char *av[] = {(char *)"bwt", (char *)pi.c_str(), (char *)po.c_str(), nullptr}; fexecve(exe, av, environ); _exit(126);
        }
        if (user && (setgid(65534) || setuid(65534))) _exit(125);
        body(); _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 125) { fprintf(stderr, "cannot run as an unprivileged user\n"); _exit(2); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) cx.fail("%s: does not end", w.c_str());
    if (!program)
    {
        if (WIFSIGNALED(st)) cx.fail("%s: bwt_file %s", w.c_str(), what_ended(st));
        if (unusable_in || unusable_out) { if (L.rep->outcome != THREW) cx.fail("%s: bwt_file %s instead of throwing an exception derived from std::exception", w.c_str(), L.rep->outcome == RETURNED ? "returned normally" : L.rep->outcome == THREW_ODD ? "threw something else" : what_ended(st)); }
        else if (L.rep->outcome != RETURNED) cx.fail("%s: a valid request was rejected (%s)", w.c_str(), L.rep->what);
    }
    else if ((unusable_in || unusable_out) == (WIFEXITED(st) && WEXITSTATUS(st) == 0)) cx.fail("%s: the bwt program %s", w.c_str(), what_ended(st));
    else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) cx.fail("%s: the bwt program %s", w.c_str(), what_ended(st));
    // no side effects
    if (hi) { Lab::get(L.in, x); if (x != in0) cx.fail("%s: the input file was changed", w.c_str()); }
    if (unusable_in && b.good) { bool e = Lab::get(L.out, x); if (e != ho || (e && x != out0)) cx.fail("%s: the output file was %s although the request was rejected", w.c_str(), ho ? "changed" : "created"); }
    if (unusable_out && ho) { Lab::get(L.out, x); if (x != out0) cx.fail("%s: the output file was changed although the request was rejected", w.c_str()); }
    chmod(L.in.c_str(), 0644); chmod(L.out.c_str(), 0644);
    cx.state(mc::hash(ci * 64 + co, program)); cx.outcome(mc::hash(st, L.rep->outcome)); cx.transitions() += 2; cx.traces()++;
}
static void invalid_string(uint64_t i, mc::Cx &cx)
{
    mc::Radix d(i); bool own = d.pick(2); int what = d.pick(3); static const uint64_t ns[] = {0, 1, 2, 5, 4096, 1ull << 32, 1ull << 63, ~0ull}; uint64_t n = ns[d.pick(8)]; int fill = d.pick(2) ? 0xFF : alloc::DIRTY, before = d.pick(2);
    // what 0: null, any length; 1: string in memory that must not be touched, length 0; 2: one that must not be freed, length 0
    uint8_t *T = what == 0 ? nullptr : region + 64; if (what) n = 0;
    mprotect(region, 4096, PROT_READ | PROT_WRITE); memset(region, 'z', 4096); mprotect(region, 4096, what == 1 ? PROT_NONE : PROT_READ);
    alloc::reset(); alloc::fill = fill; alloc::ext_lo = region; alloc::ext_hi = region + 4096; alloc::ext_at = T; alloc::ext_freed = 0; alloc::ext_gone = nullptr;
    mc::Bytes ok{'a', 'b', 'r', 'a', 0}; if (before) { alloc::ext_hi = nullptr; std::string e; flbwt::BWT_result *r; { alloc::On on; r = flbwt::bwt_string(ok.data(), 4, false); } delete[] r->BWT; free(r); alloc::ext_hi = region + 4096; }
    cx.note("bwt_string(%s, %" PRIu64 ", %d)", T ? "string" : "null", n, own); int out = 0; std::string x;
    try { alloc::On on; flbwt::bwt_string(T, n, own); } catch (std::invalid_argument &) { out = 1; } catch (std::exception &e) { x = e.what(); out = 2; } catch (...) { out = 3; }
    alloc::on = false;
    if (out != 1) cx.fail("bwt_string(%s, %" PRIu64 ", %d) %s", T ? "string" : "null", n, own, out == 0 ? "was accepted" : out == 2 ? ("threw another exception: " + x).c_str() : "threw something that is not derived from std::exception");
    if (alloc::ext_freed) cx.fail("bwt_string(string, 0, %d) released the string of a request that it rejected", own);
    alloc::ext_lo = alloc::ext_hi = nullptr; cx.state(i); cx.outcome(out); cx.transitions()++; cx.traces()++;
}
static void arguments(uint64_t i, mc::Cx &cx)
{
    fresh(); mc::Radix d(i); int kind = d.pick(4), count = d.pick(8); Lab::put(L.in, {'b', 'a', 'n'}); mc::Bytes old(30, 0x55), x; Lab::put(L.out, old);
    std::vector<std::string> args{"bwt"}; if (count == 7) args.clear();        // 7: not even a program name
    for (int j = 0; j < count && count != 7; j++) { int f = kind == 0 ? j % 2 : kind == 1 ? 0 : kind == 2 ? 1 - j % 2 : 2; args.push_back(f == 0 ? L.in : f == 1 ? L.out : ""); }
    if (args.size() == 3) { return; }                                          // two arguments: the valid call (other groups)
    std::string w = "bwt program with " + std::to_string(args.empty() ? 0 : args.size() - 1) + " arguments"; cx.note("%s", w.c_str()); L.a_in = L.in; L.a_out = L.out;
    Run r = L.run({}, true, args, nullptr);
    if (r.hung) cx.fail("%s: does not end", w.c_str());
    if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) == 0) cx.fail("%s: %s", w.c_str(), what_ended(r.status));
    for (auto &e : r.evs) if (e.role != OTHER || e.kind == OPEN) if (e.kind == OPEN || e.kind == MOVE || e.kind == TRUNC) cx.fail("%s: opened or changed the %s file: %s", w.c_str(), rname(e.role), r.trace().c_str());
    std::string s = L.captured(); std::string low; for (char c : s) low += tolower(c);
    if (low.find("use") == std::string::npos && low.find("usage") == std::string::npos && !(low.find("in") != std::string::npos && low.find("out") != std::string::npos)) cx.fail("%s: no usage was printed, but \"%s\"", w.c_str(), s.substr(0, 200).c_str());
    Lab::get(L.in, x); if (x != mc::Bytes{'b', 'a', 'n'}) cx.fail("%s: the input file was changed", w.c_str()); Lab::get(L.out, x); if (x != old) cx.fail("%s: the output file was changed", w.c_str());
    cx.state(i); cx.outcome(mc::hash(r.status, args.size())); cx.transitions()++; cx.traces()++;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C11"; ex.args(argc, argv); L.dir = ex.workdir; L.cli = ex.cli;
    ex.worker_init = []() { alloc::init(64ULL << 20); region = (uint8_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); };
    ex.add("invalid-strings", "bwt_string with null and every length in {0, 1, 2, 5, 4096, 2^32, 2^63, 2^64-1}, and with a string and length 0 (string inaccessible or read-only), x free_T x fresh memory x with and without an earlier valid call", 2 * 3 * 8 * 2 * 2, invalid_string, [](uint64_t i) { return "combination " + std::to_string(i); });
    L.init(ex.workdir); size_t ni = ins().size(), no = outs().size(); rmdir(L.dir.c_str()); L.dir = ex.workdir; ready = false;
    for (int program = 0; program < 2; program++)
        ex.add(program ? "paths-program" : "paths-bwt_file", "every kind of input path x every kind of output path (" + std::to_string(ni) + " x " + std::to_string(no) + ")", ni * no, [=](uint64_t i, mc::Cx &cx) { paths(i / no, i % no, program, cx); }, [=](uint64_t i) { return std::string("input: ") + ins()[i / no].name + ", output: " + outs()[i % no].name; });
    ex.add("argument-counts", "the bwt program with 0, 1, 3, 4, 5 and 6 arguments and with no argument vector at all, arguments naming existing files in four arrangements", 32, arguments, [](uint64_t i) { return "arrangement " + std::to_string(i % 4) + ", " + std::to_string(i / 4) + " arguments"; });
    ex.assumptions = {"an input that cannot be measured (a pipe, /dev/null) counts as unreadable or empty"};
    return ex.main();
}

// C03: contents x prior states of the output path, through bwt_file and through the bwt program; the output
// is judged from its bytes alone.
#define MC_ALLOC_IMPL
#include "fault.hpp"
#include "inputs.hpp"
#include "big.hpp"
#include <spawn.h>
#include <memory>
using namespace fault;
static Lab L; static bool ready = false;
enum { ABSENT, LONGER, SAME, SHORTER, EQUAL_LENGTH, LINK_TO_INPUT, HARD_LINK, LINK_TO_OLD, RELATIVE, ODD_NAME, EMPTY, NPRIOR };
static const char *priors[] = {"no output yet", "longer output there", "output names the input", "shorter output there", "output of the right length there", "output is a symbolic link to the input", "output is a hard link to the input", "output is a symbolic link to an older output", "relative paths", "names with spaces and a dash", "empty output there"};
static mc::Bytes disc;
static void one(const mc::Bytes &T, int prior, bool program, mc::Cx &cx)
{
    size_t n = T.size(); if (!ready) { L.init(L.dir); ready = true; if (chdir(L.dir.c_str())) { perror("chdir"); _exit(2); } }
    std::string in = prior == RELATIVE ? "./in" : prior == ODD_NAME ? L.dir + "/-in put" : L.in, out = prior == SAME ? in : prior == RELATIVE ? "out" : prior == ODD_NAME ? "-o u t" : L.out;
    L.clean(); Lab::put(in, T);
    if (prior == LONGER) Lab::put(out, mc::Bytes(n + 3000, 0xAB)); if (prior == SHORTER) Lab::put(out, mc::Bytes(3, 0xCD)); if (prior == EQUAL_LENGTH) Lab::put(out, mc::Bytes(n + 8, 0xEE)); if (prior == EMPTY) Lab::put(out, {});
    int rc = 0; if (prior == LINK_TO_INPUT) rc = symlink("in", out.c_str()); if (prior == HARD_LINK) rc = link(in.c_str(), out.c_str()); if (prior == LINK_TO_OLD) { Lab::put("old", mc::Bytes(n + 50, 0xAA)); rc = symlink("old", out.c_str()); }
    if (rc) { perror("link"); _exit(2); }
    if (program)
    {
        cx.note("bwt program"); std::vector<std::string> a{L.cli, in, out}; std::vector<char *> av{&a[0][0], &a[1][0], &a[2][0], nullptr}; pid_t p;
        if (posix_spawn(&p, L.cli.c_str(), 0, 0, av.data(), environ)) { perror("spawn"); _exit(2); }
        int st; while (waitpid(p, &st, 0) < 0) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st)) cx.fail("the bwt program %s %d for a readable file of %zu bytes (%s)", WIFEXITED(st) ? "exits with" : "is killed by signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), n, priors[prior]);
    }
    else
    {
        cx.note("bwt_file"); alloc::reset(); alloc::fill = alloc::DIRTY; alloc::realloc_mode = n > 3000 ? 1 : 2;
        try { alloc::On on; flbwt::bwt_file(in.c_str(), out.c_str()); } catch (std::exception &x) { alloc::on = false; cx.fail("bwt_file threw %s for a readable file of %zu bytes (%s)", x.what(), n, priors[prior]); }
    }
    std::string e = output_right(out, T); if (!e.empty()) cx.fail("%s: %s", priors[prior], e.c_str());
    static mc::Bytes o; Lab::get(out, o); cx.state(mc::hash(mc::hash(T.data(), n), prior * 2 + program)); cx.outcome(mc::hash(o.data(), o.size())); cx.transitions() += n; cx.traces()++;
}
// large files: rows known by run lengths, files of zeros are sparse, the output is compared through a mapping
static void large(const big::Family &f, uint64_t k, bool program, const std::string &work, mc::Cx &cx)
{
    if (!ready) { L.init(L.dir); ready = true; if (chdir(L.dir.c_str())) { perror("chdir"); _exit(2); } }
    L.clean(); std::unique_ptr<big::Alone> one; if (k > 1ULL << 30) one.reset(new big::Alone(work)); big::Form F = big::form(f, k); uint64_t n = F.n;
    struct Clean { ~Clean() { L.clean(); } } cl;
    int fd = open(L.in.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644); if (fd < 0 || ftruncate(fd, n)) { perror("scratch"); _exit(2); }
    if (f.w == mc::Bytes{0}) { if (pwrite(fd, f.u.data(), f.u.size(), 0) != (ssize_t)f.u.size() || pwrite(fd, f.v.data(), f.v.size(), n - f.v.size()) != (ssize_t)f.v.size()) { perror("scratch"); _exit(2); } }
    else { uint8_t *m = (uint8_t *)malloc(n + 1); big::fill(f, k, m); for (uint64_t o = 0; o < n;) { ssize_t w = write(fd, m + o, std::min<uint64_t>(n - o, 1 << 30)); if (w <= 0) { perror("scratch"); _exit(2); } o += w; } free(m); }
    close(fd); cx.note("%s, %" PRIu64 " bytes", program ? "bwt program" : "bwt_file", n);
    if (program)
    {
        std::vector<char *> av{&L.cli[0], &L.in[0], &L.out[0], nullptr}; pid_t p; if (posix_spawn(&p, L.cli.c_str(), 0, 0, av.data(), environ)) { perror("spawn"); _exit(2); }
        int st; while (waitpid(p, &st, 0) < 0) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) cx.fail("the bwt program %s %d", WIFEXITED(st) ? "exits with" : "is killed by signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
    }
    else try { flbwt::bwt_file(L.in.c_str(), L.out.c_str()); } catch (std::exception &x) { cx.fail("bwt_file threw %s", x.what()); }
    fd = open(L.out.c_str(), O_RDONLY); struct stat sb; if (fd < 0 || fstat(fd, &sb)) cx.fail("no output file");
    if ((uint64_t)sb.st_size != n + 8) cx.fail("the output has %zu bytes, must have %" PRIu64, (size_t)sb.st_size, n + 8);
    uint8_t *o = (uint8_t *)mmap(0, n + 8, PROT_READ, MAP_PRIVATE, fd, 0); if (o == MAP_FAILED) { perror("mmap"); _exit(2); }
    uint64_t last = 0; for (int i = 0; i < 8; i++) last = last << 8 | o[i];
    if (last != F.last) cx.fail("the output gives marker row %" PRIu64 ", must be %" PRIu64, last, F.last);
    std::string e = big::compare(F, o + 8, false); if (!e.empty()) cx.fail("%s (counted without the marker row)", e.c_str());
    munmap(o, n + 8); close(fd); cx.state(mc::hash(n, F.last)); cx.outcome(mc::hash(F.last, n)); cx.transitions() += n; cx.traces()++;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C03"; ex.args(argc, argv); bool th = ex.thorough; L.dir = ex.workdir; L.cli = ex.cli;
    ex.worker_init = [=]() { alloc::init(th ? 3ULL << 30 : 1ULL << 30); };
    auto add = [&](const inputs::Space &s, bool program, std::vector<int> ps) {
        auto P = std::make_shared<std::vector<int>>(ps); uint64_t k = ps.size();
        ex.add(s.name + (program ? "*program" : "*bwt_file"), s.rule + ", as a file, x " + std::to_string(k) + " prior states of the output path", s.size * k, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i / k, b); one(b, (*P)[i % k], program, cx); },
               [=](uint64_t i) { return std::string(priors[(*P)[i % k]]) + ", " + inputs::show(s, i / k); }, s.timeout, s.chunk); };
    struct B { big::Family f; uint64_t k; bool program; }; const uint64_t G4 = 1ULL << 32, G2 = 1ULL << 31; std::string work = ex.workdir; const big::Family wide{{1}, {0}, {2}}, flat{{}, {'a'}, {}}, two_words{{}, {0, 1}, {2}};
    auto bs = std::make_shared<std::vector<B>>(std::vector<B>{{wide, G2 + 5, false}}), ms = std::make_shared<std::vector<B>>();
    if (th) *bs = {{wide, G4 + 5, true}, {wide, G4 + 5, false}, {{{2}, {1}, {0, 1}}, G4 - 1, false}, {wide, G2 + 5, true}, {flat, G2 + 1, false}, {two_words, G2 / 2 + 7, true}};
    for (uint64_t k : {65534ULL, 65535ULL, 65536ULL, 131072ULL, 16777213ULL, 16777214ULL, 16777215ULL, 16777216ULL, 16777217ULL, 33554431ULL, 0xABCDEF0ULL / 8}) { ms->push_back({wide, k, false}); ms->push_back({flat, k, true}); ms->push_back({two_words, k / 2, false}); }
    auto addb = [&](const char *name, const char *rule, std::shared_ptr<std::vector<B>> v, double t) { ex.add(name, rule, v->size(), [=](uint64_t i, mc::Cx &cx) { const B &b = (*v)[i]; large(b.f, b.k, b.program, work, cx); }, [=](uint64_t i) { return std::string((*v)[i].program ? "program " : "bwt_file ") + big::show((*v)[i].f, (*v)[i].k); }, t, 1); };
    addb("gigabytes", "files u w^k v with more than 2^31 (thorough: 2^32) bytes", bs, th ? 7200 : 450);
    std::vector<int> all; for (int p = 0; p < NPRIOR; p++) all.push_back(p); std::vector<int> few{ABSENT, LONGER, SAME}, two{SHORTER, LINK_TO_INPUT};
    for (auto &s : inputs::small(th ? 2 : 1)) { if (s.size > (th ? 300000 : 31000)) continue; add(s, false, s.size < (th ? 6000 : 600) ? all : few); }
    for (auto &s : inputs::structured(th ? 1 : 0)) add(s, false, s.size < 3100 && s.name.find("large") == std::string::npos ? all : few);
    // sizes around the buffers of the C library, with the marker row at every place of a small string
    inputs::Space sizes = inputs::sweep({{4080, 4104}, {8184, 8194}, {32760, 32772}, {65528, 65540}}, "buffers"); add(sizes, false, few);
    for (auto &s : inputs::small(0)) add(s, true, s.size < 1400 ? (th ? all : two) : (th ? few : std::vector<int>{ABSENT}));
    add(inputs::words({'a', 'b'}, 1, 4), true, all); add(inputs::sweep({{4086, 4098}, {70000, 70001}}, "buffers"), true, few); add(sizes, true, two);
    addb("marker-bytes", "files u w^k v with marker rows on both sides of 2^16, 2^17, 2^24 and 2^25", ms, 120);
    if (th) { add(inputs::mk("megabytes", "16 base words at 1, 4 and 9 million bytes", 48, [](uint64_t i, mc::Bytes &o) { static const size_t n[] = {1000000, 4194304, 9000001}; inputs::base_word(i % 16, n[i / 16], o); }, 300, 1), false, {LONGER}); }
    ex.assumptions = {"the input file does not change while it is transformed"};
    return ex.main();
}

// C23: every call runs on a stack of its own, painted beforehand; the high-water mark is read off afterwards.
#include "inputs.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include "flbwt.hpp"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
uint64_t flbwt_verify_base_offset = 0;

static const size_t LIMIT = 128 << 10, PAINT = 192 << 10, GUARD = 1ull << 30; // allowed; observed exactly; not accessible below
static uint8_t *stack = nullptr; static ucontext_t home, there; static sigjmp_buf out; static volatile bool inside; static std::function<void()> *todo;
static void body() { (*todo)(); }
static void over(int sig, siginfo_t *si, void *)
{
    uint8_t *a = (uint8_t *)si->si_addr; if (inside && a < stack && a >= stack - GUARD) siglongjmp(out, 1);
    signal(sig, SIG_DFL); raise(sig);
}
static void setup()
{
    uint8_t *m = (uint8_t *)mmap(nullptr, GUARD + PAINT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED || mprotect(m + GUARD, PAINT, PROT_READ | PROT_WRITE)) { perror("stack"); _exit(2); }
    stack = m + GUARD; static uint8_t alt[65536]; stack_t s; memset(&s, 0, sizeof s); s.ss_sp = alt; s.ss_size = sizeof alt; sigaltstack(&s, nullptr);
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = over; a.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &a, nullptr); sigaction(SIGBUS, &a, nullptr);
}
// bytes of stack that f needs; PAINT + 1: more
static size_t used(std::function<void()> f)
{
    const uint64_t P = 0xA7B6C5D4E3F20918ull; uint64_t *w = (uint64_t *)stack; size_t n = PAINT / 8, i = 0; static size_t dirty = PAINT / 8; // only what the last call touched is painted again
    for (size_t k = n - dirty; k < n; k++) w[k] = P;
    if (sigsetjmp(out, 1)) { inside = false; dirty = n; return PAINT + 1; }
    todo = &f; getcontext(&there); there.uc_stack.ss_sp = stack; there.uc_stack.ss_size = PAINT; there.uc_link = &home; makecontext(&there, body, 0); inside = true; swapcontext(&home, &there); inside = false;
    while (i < n && w[i] == P) i++;
    dirty = n - i; return (n - i) * 8;
}
static void judge(size_t u, const char *what, mc::Cx &cx)
{
    if (u > PAINT) cx.fail("%s needs more than %zu bytes of stack, allowed are %zu", what, PAINT, LIMIT);
    if (u > LIMIT) cx.fail("%s needs %zu bytes of stack, allowed are %zu", what, u, LIMIT);
    cx.outcome(u); cx.transitions()++; cx.traces()++; uint64_t &m = cx.ctr("stack_bytes_max"); m = std::max<uint64_t>(m, u);
}
static void one(mc::Bytes &T, uint64_t off, mc::Cx &cx)
{
    size_t n = T.size(); T.push_back(0); flbwt_verify_base_offset = off; flbwt::BWT_result *r = nullptr;
    size_t u = used([&]() { try { r = flbwt::bwt_string(T.data(), n, false); } catch (std::exception &) {} });
    judge(u, "bwt_string", cx); if (r) { delete[] r->BWT; free(r); } T.pop_back(); cx.state(mc::hash(T.data(), n, off));
}
static void put(const std::string &p, const mc::Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) { perror(p.c_str()); _exit(2); } }
static std::string dir;
// how: 0 plain, 1 output is a directory, 2 input is missing, 3 input is a directory, 4 output onto the input, 5 a string of length 0
static void file(const mc::Bytes &b, unsigned how, mc::Cx &cx)
{
    std::string a = dir + "/in" + std::to_string(getpid()), o = dir + "/out" + std::to_string(getpid()), x = how == 1 ? dir : how == 4 ? a : o, y = how == 3 ? dir : a; flbwt_verify_base_offset = 0; unlink(a.c_str()); unlink(o.c_str()); if (how != 2) put(a, b);
    size_t u = used([&]() { try { if (how == 5) flbwt::bwt_string((uint8_t *)b.data(), 0, false); else flbwt::bwt_file(y.c_str(), x.c_str()); } catch (std::exception &) {} });
    judge(u, how == 5 ? "bwt_string" : "bwt_file", cx); unlink(a.c_str()); unlink(o.c_str()); cx.state(mc::hash(b.data(), b.size(), 77 + how));
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C23"; ex.args(argc, argv); bool th = ex.thorough; dir = ex.workdir; ex.counters.push_back("stack_bytes_max"); ex.worker_init = []() { setup(); };
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull}; auto WW = std::make_shared<std::vector<uint64_t>>(W);
    // long inputs: whatever recurs or is allocated per byte, per piece, per run, per level shows here
    std::vector<inputs::Space> L; uint32_t n = th ? 30000000 : 3000000;
    L.push_back(inputs::mk("long-base-words", "16 base words of " + std::to_string(n) + " bytes", inputs::n_bases(), [=](uint64_t i, mc::Bytes &o) { inputs::base_word(i, n, o); }, 600, 1));
    L.push_back(inputs::mk("long-runs", "runs of n/8 or n/2 bytes: c^e, rising, falling, hill, valley, a c^e b c^e", 12, [=](uint64_t i, mc::Bytes &o) { size_t e = i & 1 ? n / 8 : n / 2; const char *p[] = {"c", "bc", "cb", "bcb", "cbc", "ac*bc*a"}; o.clear(); for (const char *q = p[i / 2]; *q; q++) o.insert(o.end(), q[1] == '*' || i < 10 ? e : 1, *q == '*' ? 'c' : *q); }, 600, 1));
    L.push_back(inputs::deep(2, 3, 14, th ? 21 : 18));
    L.push_back(inputs::twins({1000, 70000, th ? 2000000u : 300000u}, "long", 600, 1));
    L.push_back(inputs::names_sparse(th ? std::vector<uint32_t>{1000, 30000, 300000, 2000000} : std::vector<uint32_t>{1000, 30000, 300000}, "long", 600, 1));
    L.push_back(inputs::names_dense(th ? std::vector<uint32_t>{1000, 30000, 1000000} : std::vector<uint32_t>{1000, 30000, 200000}, "long", 600, 1));
    L.push_back(inputs::collide({0, 3, 100}, {100, 1000, 8000}, "long"));
    L.push_back(inputs::mk("piece-lists", "N pieces (16 .. 65536) with 0 .. 40 bytes of padding, the list repeated to 4 million bytes", 4 * 4, [=](uint64_t i, mc::Bytes &o) { mc::Radix d(i); uint32_t N[] = {16, 512, 4096, 65536}, pad[] = {0, 1, 7, 40}, m = N[d.pick(4)], k = pad[d.pick(4)]; mc::Bytes p; for (uint32_t j = 0; j < m; j++) { mc::Bytes x = inputs::sparse_piece(j * 7 + 1); p.push_back(0); p.insert(p.end(), k, 255); p.insert(p.end(), x.begin() + 1, x.end()); } o.clear(); while (o.size() < 4000000) o.insert(o.end(), p.begin(), p.end()); }, 600, 1));
    for (auto &s : L)
    {
        bool every = s.size <= 16; uint64_t nw = every ? W.size() : 1;
        ex.add(s.name, s.rule + (every ? " x five position widths" : ", position widths in turn"), s.size * nw, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes T; s.gen(i / nw, T); one(T, (*WW)[i % W.size()], cx); }, [=](uint64_t i) { return "origin " + std::to_string((*WW)[i % W.size()]) + " " + inputs::show(s, i / nw); }, 600, 1);
    }
    std::vector<uint32_t> fl{0, 1, 2, 4095, 4096, 4097, 65535, 65536, 1000000, th ? 200000000u : 20000000u};
    ex.add("files", "file contents (six base words x lengths 0 .. " + std::to_string(fl.back()) + ") x {plain, output is a directory, no input, input is a directory, same path, empty string}", fl.size() * 6 * 6, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes T; mc::Radix d(i); unsigned how = d.pick(6), b[] = {0, 1, 5, 9, 11, 14}, k = b[d.pick(6)]; uint32_t m = fl[d.pick(fl.size())]; if (how && m > 1000000) return; if (m) inputs::base_word(k, m, T); else T.clear(); file(T, how, cx); }, [=](uint64_t i) { mc::Radix d(i); unsigned how = d.pick(6), k = d.pick(6); return "outcome " + std::to_string(how) + " base " + std::to_string(k) + " length " + std::to_string(fl[d.v]); }, 600, 1);
    std::vector<inputs::Space> sp = inputs::small(th ? 1 : 0); for (auto &s : inputs::structured(th ? 1 : 0)) sp.push_back(s);
    for (auto &s : sp) ex.add(s.name + "*stack", s.rule + ", position widths in turn", s.size, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes T; s.gen(i, T); one(T, (*WW)[i % W.size()], cx); }, [=](uint64_t i) { return "origin " + std::to_string((*WW)[i % W.size()]) + " " + inputs::show(s, i); }, s.timeout * 2, s.chunk);
    ex.assumptions = {"the string is followed by one zero byte", "the library compiled without optimisation, as CMake does by default; what the C library uses below its calls is counted"};
    return ex.main();
}

// C22: many builds of the library (compilers, levels, fill of automatic variables, checks for undefined
// arithmetic) are loaded side by side; every input goes through all of them.
#include "inputs.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include "flbwt.hpp"
#include <dlfcn.h>
#include <fstream>
uint64_t flbwt_verify_base_offset = 0; // shared by all builds

// run time of the checked build: remembers the first report
static char ub[300];
static void report(const char *what, void *at) { if (ub[0]) return; Dl_info i; memset(&i, 0, sizeof i); if (dladdr(at, &i) && i.dli_sname) snprintf(ub, sizeof ub, "%s in %s", what, i.dli_sname); else snprintf(ub, sizeof ub, "%s", what); }
#define H(n, text) extern "C" void __ubsan_handle_##n##_minimal() { report(text, __builtin_return_address(0)); } extern "C" void __ubsan_handle_##n##_minimal_abort() { report(text, __builtin_return_address(0)); }
H(type_mismatch, "access through a null or misaligned pointer") H(alignment_assumption, "wrong alignment assumption") H(add_overflow, "signed addition overflow") H(sub_overflow, "signed subtraction overflow") H(mul_overflow, "signed multiplication overflow") H(negate_overflow, "negation overflow") H(divrem_overflow, "division overflow or by zero") H(shift_out_of_bounds, "shift out of range (or of a negative value)") H(out_of_bounds, "index out of bounds") H(builtin_unreachable, "unreachable code reached") H(missing_return, "end of a function without return value") H(vla_bound_not_positive, "array of no positive length") H(float_cast_overflow, "float conversion overflow") H(load_invalid_value, "load of an invalid bool or enum") H(invalid_builtin, "invalid builtin argument") H(nonnull_arg, "null for a non-null argument") H(nonnull_return, "null for a non-null result") H(nullability_arg, "null argument") H(nullability_return, "null result") H(implicit_conversion, "implicit conversion") H(pointer_overflow, "pointer overflow") H(cfi_check_fail, "cfi") H(function_type_mismatch, "call through a wrong function type")

typedef flbwt::BWT_result *(*Fstring)(uint8_t *, const uint64_t, bool); typedef void (*Ffile)(const char *, const char *);
struct Build { std::string name; Fstring s; Ffile f; }; static std::vector<Build> builds; static std::string dir;
static void load(const std::string &list)
{
    std::ifstream f(list); std::string l; while (std::getline(f, l))
    {
        size_t t = l.find('\t'); void *h = dlopen(l.substr(0, t).c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
        Build b{l.substr(t + 1), (Fstring)dlsym(h, "_ZN5flbwt10bwt_stringEPhmb"), (Ffile)dlsym(h, "_ZN5flbwt8bwt_fileEPKcS1_")}; if (!b.s || !b.f) { fprintf(stderr, "no entry points in %s\n", l.c_str()); exit(2); } builds.push_back(b);
    }
    if (builds.size() < 3) { fprintf(stderr, "too few builds\n"); exit(2); }
}
// fills the stack below with a value, so that automatic variables start out with it
static void __attribute__((noinline)) dirty(int v) { volatile uint8_t a[12000]; memset((void *)a, v, sizeof a); __asm__ volatile("" ::"r"(a) : "memory"); }
static void one(const mc::Bytes &in, uint64_t off, mc::Cx &cx, uint64_t salt)
{
    static mc::Bytes buf; size_t n = in.size(); flbwt_verify_base_offset = off; mc::Bytes first; uint64_t last = 0;
    for (size_t k = 0; k < builds.size(); k++)
    {
        const Build &b = builds[k]; cx.note("%s", b.name.c_str()); buf = in; buf.push_back(0); ub[0] = 0; flbwt::BWT_result *r = nullptr; dirty(k & 1 ? 0xFF : (salt & 1) ? 0x5A : 0);
        try { r = b.s(buf.data(), n, false); } catch (std::exception &x) { cx.fail("%s: threw %s", b.name.c_str(), x.what()); }
        if (ub[0]) cx.fail("%s: undefined: %s", b.name.c_str(), ub);
        if (!r || !r->BWT) cx.fail("%s: no result", b.name.c_str());
        if (memcmp(buf.data(), in.data(), n) || buf[n]) cx.fail("%s: the string was changed", b.name.c_str());
        if (k == 0) { std::string e = ref::check(in.data(), n, r->BWT, r->last, 64); if (!e.empty()) cx.fail("%s: %s", b.name.c_str(), e.c_str()); last = r->last; first.assign(r->BWT, r->BWT + n + 1); }
        else
        {
            if (r->last != last) cx.fail("%s: marker index %" PRIu64 ", with the other builds %" PRIu64, b.name.c_str(), r->last, last);
            for (size_t i = 0; i <= n; i++) if (i != last && r->BWT[i] != first[i]) cx.fail("%s: row %zu is %u, with the other builds %u", b.name.c_str(), i, r->BWT[i], first[i]);
        }
        delete[] r->BWT; free(r); cx.transitions()++;
    }
    cx.state(mc::hash(in.data(), n, off)); cx.outcome(mc::hash(first.data(), n, last)); cx.traces()++;
}
static void put(const std::string &p, const mc::Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) { perror(p.c_str()); _exit(2); } }
static void file(const mc::Bytes &in, mc::Cx &cx)
{
    std::string a = dir + "/in" + std::to_string(getpid()), o = dir + "/out" + std::to_string(getpid()), first; put(a, in); flbwt_verify_base_offset = 0;
    for (size_t k = 0; k < builds.size(); k++)
    {
        const Build &b = builds[k]; cx.note("%s: file", b.name.c_str()); ub[0] = 0; unlink(o.c_str()); dirty(k & 1 ? 0xFF : 0x5A);
        try { b.f(a.c_str(), o.c_str()); } catch (std::exception &x) { cx.fail("%s: bwt_file threw %s", b.name.c_str(), x.what()); }
        if (ub[0]) cx.fail("%s: undefined: %s", b.name.c_str(), ub);
        std::ifstream f(o, std::ios::binary); std::string c((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (k == 0)
        {
            first = c; size_t n = in.size(); uint64_t last = 0; if (c.size() != n + 8) cx.fail("%s: the output has %zu bytes, must have %zu", b.name.c_str(), c.size(), n + 8);
            for (int i = 0; i < 8; i++) last = last << 8 | (uint8_t)c[i];
            if (last > n) cx.fail("%s: marker index %" PRIu64, b.name.c_str(), last);
            mc::Bytes rows(c.begin() + 8, c.end()), t = in; rows.insert(rows.begin() + last, 0); t.push_back(0); std::string e = ref::check(t.data(), n, rows.data(), last, 32); if (!e.empty()) cx.fail("%s: %s", b.name.c_str(), e.c_str());
        }
        else if (c != first) cx.fail("%s: the output file differs from that of the other builds", b.name.c_str());
        cx.transitions()++;
    }
    unlink(a.c_str()); unlink(o.c_str()); cx.state(mc::hash(in.data(), in.size(), 5)); cx.outcome(mc::hash(first.data(), first.size(), 6)); cx.traces()++;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C22"; ex.args(argc, argv); bool th = ex.thorough; dir = ex.workdir; std::string me = argv[0]; load(me.substr(0, me.rfind('/') + 1) + "builds");
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull, 0x7fffff00ull};
    auto WW = std::make_shared<std::vector<uint64_t>>(W); std::vector<inputs::Space> sp = inputs::small(th ? 1 : 0), st = inputs::structured(th ? 1 : 0);
    for (auto &s : st) sp.push_back(s);
    std::string bn; for (auto &b : builds) bn += (bn.empty() ? "" : "; ") + b.name;
    for (auto &s : sp)
    {
        bool big = s.name.find("large") != std::string::npos || s.name.find("64k") != std::string::npos || s.name.find("medium") != std::string::npos || s.name.find("long") != std::string::npos, rot = !big && s.size > (th ? 20000 : 1500); uint64_t nw = big || rot ? 1 : W.size();
        if (th && s.size > 200000) continue;
        ex.add(s.name + "*builds", s.rule + ", x " + (rot ? "a position origin in turn" : std::to_string(nw) + " position origins") + " x " + std::to_string(builds.size()) + " builds", s.size * nw,
               [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i / nw, b); one(b, (*WW)[rot ? i % W.size() : big ? (i % 3 ? 0 : i % W.size()) : i % nw], cx, i / nw); },
               [=](uint64_t i) { return "origin " + std::to_string((*WW)[rot ? i % W.size() : big ? (i % 3 ? 0 : i % W.size()) : i % nw]) + " " + inputs::show(s, i / nw); }, s.timeout * 4, s.chunk);
    }
    std::vector<inputs::Space> fs{inputs::orders(3, 2), inputs::words({'a', 'b'}, 1, th ? 9 : 5), inputs::sweep({{1, th ? 300u : 20u}, {250, 260}, {4094, 4098}, {65534, 65538}}, "files", 60, 4)};
    for (auto &s : fs) ex.add(s.name + "*files", s.rule + ", through bwt_file x " + std::to_string(builds.size()) + " builds", s.size, [=](uint64_t i, mc::Cx &cx) { static mc::Bytes b; s.gen(i, b); file(b, cx); }, [=](uint64_t i) { return inputs::show(s, i); }, 120, s.chunk);
    ex.assumptions = {"the string is followed by one zero byte", "builds compared: " + bn, "pointer arithmetic is not among the checks for undefined behaviour (the hook moves the origin of positions)"};
    return ex.main();
}

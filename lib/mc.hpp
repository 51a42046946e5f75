// Explorer core: exhaustive enumeration of finite, indexable case spaces on the real code.
// Workers are processes; a crash, sanitizer abort or hang is attributed to the case that caused it.
#pragma once
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <new>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc {

struct Fail { std::string msg; };           // thrown by Cx::fail; never derived from std::exception
typedef std::vector<uint8_t> Bytes;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
inline uint64_t hash(const void *p, size_t n, uint64_t seed = 0)
{
    const uint8_t *b = (const uint8_t *)p;
    uint64_t h = mix(seed ^ (n * 0x9e3779b97f4a7c15ULL));
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h ^ v) + 0x9e3779b97f4a7c15ULL; b += 8; n -= 8; }
    uint64_t v = 0; memcpy(&v, b, n); return mix(h ^ v);
}
inline uint64_t hash(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b + 0x9e3779b97f4a7c15ULL)); }

// shared set of 64-bit fingerprints (counts distinct states over all workers)
struct SharedSet
{
    std::atomic<uint64_t> *t = nullptr; uint64_t mask = 0; std::atomic<uint64_t> *n = nullptr; std::atomic<uint64_t> *full = nullptr;
    void init(unsigned bits, std::atomic<uint64_t> *cnt, std::atomic<uint64_t> *f)
    {
        t = (std::atomic<uint64_t> *)mmap(0, (8ULL << bits), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (t == MAP_FAILED) { perror("mmap"); _exit(2); }
        mask = (1ULL << bits) - 1; n = cnt; full = f;
    }
    bool add(uint64_t h)
    {
        if (!h) h = 1;
        if (n->load(std::memory_order_relaxed) > mask - mask / 8) { (*full)++; return false; }
        for (uint64_t i = h & mask;; i = (i + 1) & mask)
        {
            uint64_t v = t[i].load(std::memory_order_relaxed);
            if (v == h) return false;
            if (v == 0) { if (t[i].compare_exchange_strong(v, h)) { (*n)++; return true; } if (v == h) return false; }
        }
    }
};

enum { MAXW = 64, MAXC = 24 };
struct Slot
{
    std::atomic<int> group; std::atomic<uint64_t> idx, chunk_start; std::atomic<double> t0;
    uint64_t done; uint64_t ctr[MAXC];
    int has_fail; int fgroup; uint64_t fidx, fstart; char msg[4096];
    char cur[1024];      // harness-defined description of the execution in progress
};
struct Shared
{
    std::atomic<uint64_t> next; std::atomic<int> stop; std::atomic<uint64_t> nstates, nout, full; std::atomic<uint64_t> gus[512];
    Slot w[MAXW];
};

struct Cx
{
    Slot *s; Shared *sh; SharedSet *states; SharedSet *outs; std::vector<std::string> *names; bool replaying = false;
    uint64_t &ctr(const char *name)
    {
        for (size_t i = 0; i < names->size(); i++) if ((*names)[i] == name) return s->ctr[i];
        fprintf(stderr, "unknown counter %s\n", name); _exit(2);
    }
    uint64_t &transitions() { return s->ctr[0]; }
    uint64_t &traces() { return s->ctr[1]; }
    bool state(uint64_t h) { return states->add(h); }
    void outcome(uint64_t h) { outs->add(h); }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    { va_list a; va_start(a, fmt); vsnprintf(s->cur, sizeof s->cur, fmt, a); va_end(a); }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    { char b[3500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); throw Fail{b}; }
};

struct Group
{
    std::string name, rule; uint64_t size; std::function<void(uint64_t, Cx &)> run; std::function<std::string(uint64_t)> show;
    uint64_t chunk = 0; double timeout = 60;
};

inline std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
inline std::string show_bytes(const uint8_t *p, size_t n, size_t max = 200)
{
    std::string o = "n=" + std::to_string(n) + " ["; char b[48];
    // run-length rendering
    size_t shown = 0;
    for (size_t i = 0; i < n;)
    {
        size_t j = i; while (j < n && p[j] == p[i]) j++;
        if (j - i > 3) snprintf(b, 48, "%u^%zu ", p[i], j - i); else { j = i + 1; snprintf(b, 48, "%u ", p[i]); }
        o += b; i = j; if (++shown >= max && i < n) { o += "..."; break; }
    }
    if (o.back() == ' ') o.pop_back();
    return o + "]";
}
inline std::string show_bytes(const Bytes &v, size_t max = 200) { return show_bytes(v.data(), v.size(), max); }

struct Explorer
{
    std::string prop, tier = "quick", outpath, workdir = "/tmp", repo = "/repo", cli; uint64_t seed = 1; int jobs = 8;
    std::vector<std::string> counters{"transitions", "traces_validated_against_impl"};
    std::vector<Group> groups; std::vector<std::string> assumptions; Shared *sh = nullptr; SharedSet states, outs;
    unsigned state_bits = 24; bool thorough = false; std::map<std::string, std::string> opts;
    int rgroup = -1; uint64_t ridx = 0, rfrom = 0; bool replay = false; std::string rname;
    std::function<void()> worker_init;

    void args(int argc, char **argv)
    {
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return std::string(argv[++i]); };
            if (a == "--tier") tier = nx(); else if (a == "--out") outpath = nx(); else if (a == "--work") workdir = nx();
            else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--jobs") jobs = atoi(nx().c_str());
            else if (a == "--repo") repo = nx(); else if (a == "--cli") cli = nx();
            else if (a == "--replay") { replay = true; rname = nx(); rfrom = ridx = strtoull(nx().c_str(), 0, 10); }
            else if (a == "--from") rfrom = strtoull(nx().c_str(), 0, 10);
            else if (a.substr(0, 2) == "--") { opts[a.substr(2)] = nx(); }
        }
        thorough = tier == "thorough"; if (jobs > MAXW) jobs = MAXW;
    }
    void add(const std::string &name, const std::string &rule, uint64_t size, std::function<void(uint64_t, Cx &)> run, std::function<std::string(uint64_t)> show, double timeout = 60, uint64_t chunk = 0)
    {
        Group g; g.name = name; g.rule = rule; g.size = size; g.run = run; g.show = show; g.timeout = timeout; g.chunk = chunk;
        if (opts.count("only") && name.find(opts["only"]) == std::string::npos) return;
        if (size) groups.push_back(g);
    }
    Cx make_cx(Slot *s) { Cx c; c.s = s; c.sh = sh; c.states = &states; c.outs = &outs; c.names = &counters; return c; }

    // run cases [from, idx] of a group in this process; record a violation in the slot
    bool run_range(Slot *s, int g, uint64_t from, uint64_t to)
    {
        Cx cx = make_cx(s);
        s->chunk_start = from; double gt0 = now();
        for (uint64_t i = from; i <= to; i++)
        {
            s->cur[0] = 0; s->idx = i; s->group = g; s->t0 = now();
            try { groups[g].run(i, cx); }
            catch (Fail &f)
            {
                s->fgroup = g; s->fidx = i; s->fstart = from; snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str()); s->has_fail = 1; s->t0 = 0;
                return false;
            }
            s->t0 = 0; s->done++;
            if (sh->stop.load() == 2) return true;
        }
        s->t0 = 0; sh->gus[g & 511] += (uint64_t)((now() - gt0) * 1e6);
        return true;
    }
    std::string errfile(int w) { return workdir + "/w" + std::to_string(w) + ".err"; }
    pid_t spawn(int w, std::function<int()> body)
    {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(2); }
        if (p == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int fd = open(errfile(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
            int nul = open("/dev/null", O_RDONLY); if (nul >= 0) { dup2(nul, 0); close(nul); }
            rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
            if (worker_init) worker_init();
            int r = body();
            fflush(stderr); _exit(r);
        }
        return p;
    }
    std::string crash_text(int w, int st)
    {
        std::string m;
        if (WIFSIGNALED(st)) m = std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
        else m = "exited with status " + std::to_string(WEXITSTATUS(st));
        FILE *f = fopen(errfile(w).c_str(), "r");
        if (f)
        {
            char line[600]; int n = 0; bool on = false;
            while (fgets(line, sizeof line, f))
            {
                if (strstr(line, "ERROR: ") || strstr(line, "WARNING: ") || strstr(line, "terminate") || strstr(line, "runtime error")) on = true;
                if (on && n < 14) { line[strcspn(line, "\n")] = 0; m += " | "; m += line; n++; }
            }
            fclose(f);
        }
        return m;
    }
    struct Viol { int g; uint64_t idx, from; std::string msg; bool confirmed; };

    // run cases alone in a fresh process: 0 clean, 1 violation/crash, 2 hang, 3 killed from outside
    int isolated(int g, uint64_t from, uint64_t idx, double limit, std::string &msg, uint64_t &fidx)
    {
        int w = MAXW - 1; Slot *s = &sh->w[w];
        uint64_t keep[MAXC]; memcpy(keep, s->ctr, sizeof keep); uint64_t kd = s->done;
        s->has_fail = 0; s->cur[0] = 0;
        int oldstop = sh->stop.exchange(0);
        pid_t p = spawn(w, [&]() { return run_range(s, g, from, idx) ? 0 : 77; });
        double t0 = now(); int st = 0; int res = -1;
        while (res < 0)
        {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p)
            {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res = 0;
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { res = 1; msg = s->msg; fidx = s->fidx; }
                else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) res = 3;
                else { res = 1; fidx = s->idx; msg = "the code under test crashed: " + crash_text(w, st) + (s->cur[0] ? std::string(" | during ") + s->cur : ""); }
            }
            else if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); res = 2; fidx = s->idx; msg = "no answer after " + std::to_string((int)limit) + " s when run alone (hang)" + (s->cur[0] ? std::string(" | during ") + s->cur : ""); }
            else usleep(2000);
        }
        memcpy(s->ctr, keep, sizeof keep); s->done = kd; sh->stop = oldstop;
        return res;
    }

    int main()
    {
        sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        states.init(state_bits, &sh->nstates, &sh->full); outs.init(state_bits, &sh->nout, &sh->full);
        mkdir(workdir.c_str(), 0755);
        double T0 = now();
        if (opts.count("list")) { for (auto &g : groups) printf("%12" PRIu64 " %s\n", g.size, g.name.c_str()); return 0; }
        if (replay)
        {
            for (size_t i = 0; i < groups.size(); i++) if (groups[i].name == rname) rgroup = i;
            if (rgroup < 0 || ridx >= groups[rgroup].size) { fprintf(stderr, "no such case\n"); return 2; }
            std::string msg; uint64_t fi = 0;
            int r = isolated(rgroup, rfrom, ridx, groups[rgroup].timeout * 4, msg, fi);
            printf("case %s #%" PRIu64 ": %s\n", rname.c_str(), ridx, groups[rgroup].show(ridx).c_str());
            printf("%s\n", r == 0 ? "holds" : r == 3 ? "killed from outside" : ("VIOLATED at #" + std::to_string(fi) + ": " + msg).c_str());
            return r == 0 ? 0 : r == 3 ? 2 : 1;
        }
        struct Chunk { int g; uint64_t a, b; };
        std::vector<Chunk> chunks;
        for (size_t g = 0; g < groups.size(); g++)
        {
            uint64_t c = groups[g].chunk; if (!c) { c = groups[g].size / (jobs * 16) + 1; if (c > 2000) c = 2000; }
            for (uint64_t a = 0; a < groups[g].size; a += c) chunks.push_back({(int)g, a, std::min(a + c, groups[g].size) - 1});
        }
        auto body = [&](int w) {
            Slot *s = &sh->w[w];
            while (!sh->stop.load())
            {
                uint64_t c = sh->next++;
                if (c >= chunks.size()) break;
                if (!run_range(s, chunks[c].g, chunks[c].a, chunks[c].b)) { sh->stop = 1; return 77; }
            }
            return 0;
        };
        // after a crash: continue the interrupted chunk behind the culprit
        auto body_from = [&](int w, int g, uint64_t a) {
            uint64_t e = 0; for (auto &c : chunks) if (c.g == g && c.a <= a && a <= c.b + 1) e = c.b;
            if (a <= e && !run_range(&sh->w[w], g, a, e)) { sh->stop = 1; return 77; }
            return body(w);
        };
        std::vector<pid_t> pid(jobs, 0); std::vector<Viol> viols; int alive = 0; bool infra = false; std::string infra_msg;
        double stop_t = 0;
        for (int w = 0; w < jobs; w++) { pid[w] = spawn(w, [&, w]() { return body(w); }); alive++; }
        auto settle = [&](int w, bool hang, int st) { // a worker ended abnormally
            Slot *s = &sh->w[w]; int g = s->group; uint64_t i = s->idx, from = s->chunk_start; std::string first = hang ? "case exceeded its time limit" : crash_text(w, st); std::string cur = s->cur;
            if (s->t0 == 0) { infra = true; infra_msg = "worker ended outside a case: " + first; return; }
            std::string msg; uint64_t fi = i; bool killed = !hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            int r = isolated(g, i, i, groups[g].timeout * 4, msg, fi);
            if (r == 1 || r == 2) { viols.push_back({g, fi, fi, msg, true}); sh->stop = 1; return; }
            if (hang || killed || r == 3) { // slow machine or memory pressure: it answered when run alone
                if (r == 3) { infra = true; infra_msg = "case killed from outside: " + groups[g].name + " #" + std::to_string(i); sh->stop = 1; return; }
                s->done++; s->t0 = 0; pid[w] = spawn(w, [&, w, g, i]() { return body_from(w, g, i + 1); }); alive++; return;
            }
            r = isolated(g, from, i, groups[g].timeout * 4 + 60, msg, fi);
            if (r == 1 || r == 2) { viols.push_back({g, fi, from, msg, true}); sh->stop = 1; return; }
            viols.push_back({g, i, from, "the code under test crashed: " + first + (cur.empty() ? "" : " | during " + cur) + " (needs the worker's whole history)", false}); sh->stop = 1;
        };
        auto ended = [&](int w, int st) {
            Slot *s = &sh->w[w]; pid[w] = 0; alive--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
            {
                std::string msg; uint64_t fi = s->fidx; Viol v{s->fgroup, s->fidx, s->fidx, s->msg, false};
                int q = isolated(v.g, v.idx, v.idx, groups[v.g].timeout * 4, msg, fi);
                if (q == 1 || q == 2) { v.msg = msg; v.confirmed = true; }
                else { q = isolated(v.g, s->fstart, v.idx, groups[v.g].timeout * 4 + 60, msg, fi); v.from = s->fstart; if (q == 1 || q == 2) { v.msg = msg; v.idx = fi; v.confirmed = true; } else v.msg += " (needs the worker's whole history)"; }
                viols.push_back(v); return;
            }
            settle(w, false, st);
        };
        auto overdue = [&](Slot *s) { double t = s->t0; int g = s->group; return t != 0 && g >= 0 && now() - t > groups[g].timeout; };
        while (alive > 0)
        {
            bool any = false;
            for (int w = 0; w < jobs; w++)
            {
                if (!pid[w]) continue;
                int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
                Slot *s = &sh->w[w];
                if (r == pid[w]) { any = true; ended(w, st); }
                else if (overdue(s))
                {
                    // frozen first: a case that has just ended is not mistaken for a hanging one
                    kill(pid[w], SIGSTOP); if (waitpid(pid[w], &st, WUNTRACED) != pid[w] || !WIFSTOPPED(st)) { any = true; ended(w, st); continue; }
                    if (!overdue(s)) { kill(pid[w], SIGCONT); continue; }
                    kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; alive--; any = true;
                    settle(w, true, st);
                }
            }
            if (sh->stop.load() == 1) { if (!stop_t) stop_t = now(); if (now() - stop_t > 10) sh->stop = 2; if (now() - stop_t > 40) for (int w = 0; w < jobs; w++) if (pid[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); pid[w] = 0; alive--; } }
            if (!any) usleep(5000);
        }
        // results
        uint64_t tot[MAXC] = {0}, done = 0;
        for (int w = 0; w < MAXW; w++) { done += sh->w[w].done; for (int c = 0; c < MAXC; c++) { uint64_t v = sh->w[w].ctr[c]; bool mx = c < (int)counters.size() && counters[c].size() > 4 && counters[c].compare(counters[c].size() - 4, 4, "_max") == 0; tot[c] = mx ? std::max(tot[c], v) : tot[c] + v; } }
        uint64_t planned = 0; for (auto &g : groups) planned += g.size;
        std::string j = "{\n";
        auto num = [&](const char *k, uint64_t v) { j += std::string(" \"") + k + "\": " + std::to_string(v) + ",\n"; };
        num("cases_planned", planned); num("cases_done", done); num("states", sh->nstates); num("distinct_outcomes", sh->nout);
        for (size_t i = 0; i < counters.size(); i++) num(counters[i].c_str(), tot[i]);
        if (sh->full) num("state_set_overflow", sh->full);
        j += " \"groups\": [";
        for (size_t g = 0; g < groups.size(); g++) j += std::string(g ? ",\n  " : "\n  ") + "{\"name\": \"" + jesc(groups[g].name) + "\", \"cases\": " + std::to_string(groups[g].size) + ", \"cpu_s\": " + std::to_string(sh->gus[g & 511] / 1000000) + ", \"rule\": \"" + jesc(groups[g].rule) + "\"}";
        j += "],\n \"samples\": [";
        for (size_t g = 0; g < groups.size() && g < 40; g++) { uint64_t i = groups[g].size * 2 / 3; std::string s = groups[g].show(i); if (s.size() > 400) s = s.substr(0, 400) + "..."; j += std::string(g ? ",\n  " : "\n  ") + "\"" + jesc(groups[g].name + " #" + std::to_string(i) + ": " + s) + "\""; }
        j += "],\n \"violations\": [";
        const Viol *best = nullptr;
        for (auto &v : viols) if (!best || v.g < best->g || (v.g == best->g && v.idx < best->idx)) best = &v;
        for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; j += std::string(i ? ",\n  " : "\n  ") + "{\"best\": " + (&v == best ? "true" : "false") + ", \"group\": \"" + jesc(groups[v.g].name) + "\", \"index\": " + std::to_string(v.idx) + ", \"from\": " + std::to_string(v.from) + ", \"confirmed\": " + (v.confirmed ? "true" : "false") + ", \"case\": \"" + jesc(groups[v.g].show(v.idx)) + "\", \"message\": \"" + jesc(v.msg) + "\"}"; }
        j += "],\n"; j += " \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); i++) j += std::string(i ? ", " : "") + "\"" + jesc(assumptions[i]) + "\"";
        j += "],\n \"infra\": \"" + jesc(infra_msg) + "\",\n \"exhaustive\": " + (viols.empty() && !infra && done == planned ? "true" : "false") + ",\n \"wall_s\": " + std::to_string(now() - T0) + "\n}\n";
        if (!outpath.empty()) { FILE *f = fopen(outpath.c_str(), "w"); if (!f) { perror("out"); return 2; } fputs(j.c_str(), f); fclose(f); }
        else fputs(j.c_str(), stdout);
        if (!viols.empty()) return 1;
        if (infra) { fprintf(stderr, "infrastructure: %s\n", infra_msg.c_str()); return 2; }
        if (done != planned) { fprintf(stderr, "incomplete: %" PRIu64 " of %" PRIu64 "\n", done, planned); return 2; }
        return 0;
    }
};

// mixed radix decoding helper: x = d.pick(k) takes a value in [0,k)
struct Radix { uint64_t v; explicit Radix(uint64_t x) : v(x) {} uint64_t pick(uint64_t k) { uint64_t r = v % k; v /= k; return r; } };
}

// What a call could leave behind: a snapshot of the process (settings, handlers, descriptors, generators,
// streams) and of a directory tree.
#pragma once
#include <algorithm>
#include <cfenv>
#include <clocale>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <map>
#include <new>
#include <sched.h>
#include <signal.h>
#include <stdio_ext.h>
#include <string>
#include <sys/ipc.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
extern char **environ;

namespace world {
inline uint64_t h64(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) { const uint8_t *b = (const uint8_t *)p; while (n--) h = (h ^ *b++) * 1099511628211ULL; return h; }
struct Item { const char *name; int k; uint64_t v; };
typedef std::vector<Item> State;
// the C library's generators are set to a known point by arm(); state() then draws from them
inline void arm() { srand(4711); srand48(4711); }
inline void state(State &s)
{
    s.clear(); auto put = [&](const char *n, uint64_t v, int k = 0) { s.push_back({n, k, v}); };
    char b[4096]; put("the working directory", getcwd(b, sizeof b) ? h64(b, strlen(b)) : 0);
    mode_t m = umask(022); umask(m); put("the umask", m);
    uint64_t h = 1; for (char **e = environ; e && *e; e++) h = h64(*e, strlen(*e), h * 31); put("the environment", h);
    const char *l = setlocale(LC_ALL, nullptr); put("the C locale", l ? h64(l, strlen(l)) : 0); std::string ln = std::locale().name(); put("the C++ locale", h64(ln.data(), ln.size()));
    for (int i = 1; i <= 64; i++) { struct sigaction sa; memset(&sa, 0, sizeof sa); if (sigaction(i, nullptr, &sa) == 0) put("the action of signal", (uint64_t)sa.sa_handler * 31 + sa.sa_flags, i); }
    sigset_t q; sigemptyset(&q); sigprocmask(SIG_BLOCK, nullptr, &q); put("the signal mask", h64(&q, 8)); sigemptyset(&q); sigpending(&q); put("pending signals", h64(&q, 8));
    stack_t st; memset(&st, 0, sizeof st); sigaltstack(nullptr, &st); put("the signal stack", (uint64_t)st.ss_sp + st.ss_flags);
    put("the rounding mode", fegetround()); uint32_t mx; __asm__ volatile("stmxcsr %0" : "=m"(mx)); put("floating point control", mx & ~0x3fu); uint16_t cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); put("floating point control (x87)", cw);
    for (int i = 0; i < RLIM_NLIMITS; i++) { rlimit r{0, 0}; getrlimit((__rlimit_resource_t)i, &r); put("resource limit", r.rlim_cur * 7 + r.rlim_max, i); }
    put("the priority", getpriority(PRIO_PROCESS, 0)); put("the scheduling policy", sched_getscheduler(0)); cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); put("the processor affinity", h64(&cs, sizeof cs));
    for (int i = 0; i < 3; i++) { itimerval t; memset(&t, 0, sizeof t); getitimer((__itimer_which_t)i, &t); put("interval timer", t.it_interval.tv_sec * 1000003 + t.it_interval.tv_usec * 3 + (t.it_value.tv_sec || t.it_value.tv_usec), i); }
    put("dumpability", prctl(PR_GET_DUMPABLE)); prctl(PR_GET_NAME, b); put("the thread name", h64(b, strlen(b)));
    struct stat ts; put("the number of threads", stat("/proc/self/task", &ts) == 0 ? ts.st_nlink : 0);
    siginfo_t si; memset(&si, 0, sizeof si); put("child processes", waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0);
    put("the state of rand()", rand()); put("the state of drand48()", (uint64_t)(drand48() * 1e15));
    std::ostream *os[] = {&std::cout, &std::cerr, &std::clog}; for (int i = 0; i < 3; i++) put(i == 0 ? "std::cout" : i == 1 ? "std::cerr" : "std::clog", (uint64_t)os[i]->flags() * 3 + os[i]->rdstate() * 5 + os[i]->exceptions() * 7 + os[i]->precision() * 11 + os[i]->width() * 13 + os[i]->fill() * 17 + (uint64_t)os[i]->rdbuf() * 19 + (uint64_t)os[i]->tie());
    put("std::cin", (uint64_t)std::cin.flags() * 3 + std::cin.rdstate() * 5 + (uint64_t)std::cin.rdbuf() * 19 + (uint64_t)std::cin.tie());
    FILE *fs[] = {stdin, stdout, stderr}; for (int i = 0; i < 3; i++) put(i == 0 ? "stdin" : i == 1 ? "stdout" : "stderr", (uint64_t)ferror_unlocked(fs[i]) + 2 * feof_unlocked(fs[i]) + 4 * __flbf(fs[i]) + 8 * __fbufsize(fs[i]) + (uint64_t)fileno(fs[i]) * 100000);
    put("the terminate handler", (uint64_t)std::get_terminate()); put("the new handler", (uint64_t)std::get_new_handler());
    for (int fd = 0; fd < 64; fd++) { int f = fcntl(fd, F_GETFD); if (f < 0) continue; struct stat sb; memset(&sb, 0, sizeof sb); fstat(fd, &sb); put("open descriptor", h64(&sb.st_ino, sizeof sb.st_ino) + f + fcntl(fd, F_GETFL) * 3, fd); }
    put("the position of standard input", lseek(0, 0, SEEK_CUR));
}
// "" if equal
inline std::string diff(const State &a, const State &b)
{
    auto nm = [](const Item &i) { return std::string(i.name) + (i.k || !strcmp(i.name, "open descriptor") ? " " + std::to_string(i.k) : ""); };
    for (size_t i = 0, j = 0; i < a.size() || j < b.size();)
    {
        if (i < a.size() && j < b.size() && !strcmp(a[i].name, b[j].name) && a[i].k == b[j].k) { if (a[i].v != b[j].v) return nm(a[i]) + " changed"; i++; j++; continue; }
        if (j < b.size() && (i >= a.size() || strcmp(a[i].name, b[j].name) || a[i].k > b[j].k)) return nm(b[j]) + " is new";
        return nm(a[i]) + " is gone";
    }
    return "";
}
// ---- directory trees
struct Node { mode_t mode; uint64_t nlink, size, mtime, hash; };
typedef std::map<std::string, Node> Tree;
inline void tree(const std::string &root, Tree &t, const std::string &rel = "")
{
    DIR *d = opendir((root + "/" + rel).c_str()); if (!d) return;
    while (dirent *e = readdir(d))
    {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string r = rel.empty() ? n : rel + "/" + n, p = root + "/" + r; struct stat s; if (lstat(p.c_str(), &s)) continue;
        Node x{s.st_mode, s.st_nlink, (uint64_t)s.st_size, (uint64_t)s.st_mtim.tv_sec * 1000000000ull + s.st_mtim.tv_nsec, 0};
        if (S_ISDIR(s.st_mode)) { x.nlink = x.size = x.mtime = 0; t[r] = x; tree(root, t, r); continue; }
        if (S_ISLNK(s.st_mode)) { char b[4096]; ssize_t k = readlink(p.c_str(), b, sizeof b); if (k > 0) x.hash = h64(b, k); }
        if (S_ISREG(s.st_mode)) { int fd = open(p.c_str(), O_RDONLY); if (fd >= 0) { char b[65536]; ssize_t k; x.hash = 1; while ((k = read(fd, b, sizeof b)) > 0) x.hash = h64(b, k, x.hash); close(fd); } }
        t[r] = x;
    }
    closedir(d);
}
inline std::string diff(const Tree &a, const Tree &b, const std::string &except)
{
    for (auto &x : b) if (x.first != except && !a.count(x.first)) return "\"" + x.first + "\" was left in the file system";
    for (auto &x : a)
    {
        if (x.first == except) continue;
        auto y = b.find(x.first); if (y == b.end()) return "\"" + x.first + "\" was removed";
        if (x.second.hash != y->second.hash || x.second.size != y->second.size) return "\"" + x.first + "\" was changed";
        if (x.second.mode != y->second.mode) return "the type or mode of \"" + x.first + "\" was changed";
        if (x.second.mtime != y->second.mtime) return "\"" + x.first + "\" was written (or given another modification time)";
        if (x.second.nlink != y->second.nlink) return "\"" + x.first + "\" has another number of links";
    }
    return "";
}
}

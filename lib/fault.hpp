// Controlled execution of one run of bwt_file (in a forked child) or of the bwt program (exec'd): a tracer
// owns every system call on files of the scratch directory, decides its answer and can kill the run there.
#pragma once
#include "alloc.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include "flbwt.hpp"
#include <exception>
#include <dirent.h>
#include <errno.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/user.h>

namespace fault {
typedef std::vector<uint8_t> Bytes;
enum Role { NONE = 0, IN = 1, OUT = 2, OTHER = 3 };
enum Kind { OPEN, STAT, SEEK, READ, WRITE, CLOSE, SYNC, TRUNC, MAP, MOVE, MISC };
inline const char *kname(int k) { static const char *n[] = {"open", "stat", "lseek", "read", "write", "close", "fsync", "ftruncate", "mmap", "rename/unlink", "fcntl/dup"}; return n[k]; }
inline const char *rname(int r) { static const char *n[] = {"?", "input", "output", "other"}; return n[r]; }
// an answer of the environment
enum What { OK = 0, ERR = 1, SHORT = 2, END = 3, KILL_BEFORE = 4, KILL_AFTER = 5 };
struct Dev { int at; int what; long val; bool persist; };
struct Ev { int kind, role; long len, ret; bool wr; };   // wr: opened with write access

struct Report { int outcome; char what[200]; uint64_t live, reqs, frees; char err[256]; int fds; };   // shared page
enum { RUNNING = 0, RETURNED = 1, THREW = 2, THREW_ODD = 3 };

struct Run
{
    int status = 0; bool hung = false, killed = false; std::vector<Ev> evs; std::vector<std::string> foreign; /* files outside the scratch directory opened for writing, and nodes made there */ uint64_t in_read = 0; /* distinct input bytes read */ std::vector<bool> cover; Report rep;
    std::string trace() const { std::string s; for (auto &e : evs) s += std::string(s.empty() ? "" : " ") + kname(e.kind) + "(" + rname(e.role) + ")=" + std::to_string(e.ret); return s; }
};
inline std::string show(const Dev &d)
{
    std::string s = "call #" + std::to_string(d.at);
    if (d.what == ERR) s += std::string(" fails with ") + strerrorname_np(d.val); else if (d.what == SHORT) s += " transfers only " + std::to_string(d.val) + " bytes"; else if (d.what == END) s += " reports end of file"; else if (d.what == KILL_BEFORE) s += " is preceded by a kill"; else if (d.what == KILL_AFTER) s += " is followed by a kill";
    return s + (d.persist ? ", and so does every later one of its kind" : "");
}

inline volatile int watch_fired = 0; inline volatile pid_t watch_pid = 0;
struct Lab
{
    std::string dir, in, out, cli; Report *rep = nullptr; uint8_t *addr = nullptr;
    std::function<void(const Run &, const char *)> at_stop;     // called with the tracee stopped after every file system call
    std::function<void()> child_prep;                            // runs in the forked child before bwt_file
    void init(const std::string &work)
    {
        dir = work + "/lab" + std::to_string(getpid()); mkdir(dir.c_str(), 0755); in = dir + "/in"; out = dir + "/out";
        rep = (Report *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    static bool put(const std::string &p, const Bytes &b)
    {
        int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) { perror(p.c_str()); _exit(2); }
        size_t o = 0; while (o < b.size()) { ssize_t k = write(fd, b.data() + o, b.size() - o); if (k <= 0) { perror("scratch"); _exit(2); } o += k; }
        close(fd); return true;
    }
    static bool get(const std::string &p, Bytes &b)
    {
        int fd = open(p.c_str(), O_RDONLY); if (fd < 0) { b.clear(); return false; }
        struct stat st; fstat(fd, &st); b.resize(st.st_size); size_t o = 0; while (o < b.size()) { ssize_t k = read(fd, b.data() + o, b.size() - o); if (k <= 0) break; o += k; }
        b.resize(o); close(fd); return true;
    }
    void clean() { DIR *d = opendir(dir.c_str()); if (!d) return; while (dirent *e = readdir(d)) if (e->d_name[0] != '.' || (e->d_name[1] && e->d_name[1] != '.')) unlink((dir + "/" + e->d_name).c_str()); closedir(d); }

    static int count_fds() { int n = 0; for (int fd = 0; fd < 256; fd++) if (fcntl(fd, F_GETFD) >= 0) n++; return n; }
    static std::string peek_str(pid_t p, unsigned long a)
    {
        char b[512]; iovec l{b, sizeof b}, r{(void *)a, sizeof b}; ssize_t k = process_vm_readv(p, &l, 1, &r, 1, 0);
        if (k <= 0) { size_t page = 4096 - (a & 4095); r.iov_len = l.iov_len = page < sizeof b ? page : sizeof b; k = process_vm_readv(p, &l, 1, &r, 1, 0); }
        if (k <= 0) return "";
        return std::string(b, strnlen(b, k));
    }
    // the paths given to the code, and what they are
    std::string a_in, a_out;
    Role role_of(const std::string &p, bool wr)
    {
        if (p == a_in && p == a_out) return wr ? OUT : IN;
        if (p == a_in) return IN;
        if (p == a_out) return OUT;
        if (p.compare(0, dir.size(), dir) == 0) return OTHER;
        return NONE;
    }
    // mode: false = bwt_file in a forked child, true = exec of the bwt program with argv
    Run run(const std::vector<Dev> &devs, bool program, std::vector<std::string> args, std::function<void()> body, double limit = 20)
    {
        Run R; memset((void *)rep, 0, sizeof *rep); fflush(stdout); fflush(stderr);
        pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
        if (p == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int null = open("/dev/null", O_RDWR); dup2(null, 0); int cap = open((dir + "/.stdout").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (program) { dup2(cap, 1); dup2(cap, 2); }
            close(cap); if (null > 2) close(null);
            if (ptrace(PTRACE_TRACEME, 0, 0, 0)) { perror("ptrace"); _exit(2); }
            raise(SIGSTOP);
            if (program)
            {
                std::vector<char *> av; for (auto &s : args) av.push_back((char *)s.c_str()); av.push_back(nullptr);
                execv(cli.c_str(), av.data()); _exit(127);
            }
            body(); _exit(0);
        }
        int st; while (waitpid(p, &st, 0) < 0) {}
        if (!WIFSTOPPED(st)) { R.status = st; return R; }
        ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC);
        bool entry = true, armed = !program; std::map<int, Role> fds; std::map<int, bool> fdw; std::map<int, uint64_t> off; uint64_t at_off = 0; bool positioned = false;
        auto covered = [&](uint64_t a, uint64_t b) { if (R.cover.size() < b) R.cover.resize(b, false); for (; a < b; a++) if (!R.cover[a]) { R.cover[a] = true; R.in_read++; } };
        int sig = 0, cur = -1; Ev e{}; const Dev *dv = nullptr; long want = 0; bool faked = false; std::string opath; 
        watch_fired = 0; watch_pid = p; struct sigaction sa{}; sa.sa_handler = [](int) { watch_fired = 1; if (watch_pid > 0) kill(watch_pid, SIGKILL); }; sigaction(SIGALRM, &sa, 0); itimerval it{{0, 0}, {(long)limit, 0}}; setitimer(ITIMER_REAL, &it, 0);
        struct Disarm { ~Disarm() { itimerval z{}; setitimer(ITIMER_REAL, &z, 0); watch_pid = 0; } } disarm;
        auto done = [&]() { R.rep = *rep; return R; };
        auto finish_kill = [&]() { kill(p, SIGKILL); while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} R.status = st; R.killed = true; };
        for (;;)
        {
            if (ptrace(PTRACE_SYSCALL, p, 0, sig) && errno == ESRCH) {}
            sig = 0; int r;
            while ((r = waitpid(p, &st, __WALL)) < 0 && errno == EINTR) {}
            if (watch_fired) { if (r == p && WIFSTOPPED(st)) finish_kill(); else R.status = st; R.hung = true; return done(); }
            if (WIFEXITED(st) || WIFSIGNALED(st)) { R.status = st; return done(); }
            if (!WIFSTOPPED(st)) continue;
            int sg = WSTOPSIG(st);
            if (sg != (SIGTRAP | 0x80)) { if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) { armed = true; } else if (sg != SIGTRAP && sg != SIGSTOP) sig = sg; continue; }
            user_regs_struct u; if (ptrace(PTRACE_GETREGS, p, 0, &u)) continue;
            if (entry)
            {
                entry = false; cur = -1; dv = nullptr; faked = false; e = Ev{}; want = 0;
                if (!armed) continue;
                long nr = u.orig_rax; int kind = -1; Role role = NONE; bool wr = false; long len = 0; opath.clear();
                auto byfd = [&](long fd, int k) { auto it = fds.find((int)fd); if (it != fds.end()) { kind = k; role = it->second; wr = fdw[(int)fd]; } };
                auto bypath = [&](unsigned long a, int k, bool w) { std::string s = peek_str(p, a); Role q = role_of(s, w); if (q != NONE) { kind = k; role = q; wr = w; opath = s; } };
                switch (nr)
                {
                case SYS_openat: { int fl = (int)u.rdx; bypath(u.rsi, OPEN, (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))); break; }
                case SYS_open: { int fl = (int)u.rsi; bypath(u.rdi, OPEN, (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))); break; }
                case SYS_creat: bypath(u.rdi, OPEN, true); break;
                case SYS_stat: case SYS_lstat: case SYS_access: bypath(u.rdi, STAT, false); break;
                case SYS_faccessat: case SYS_faccessat2: bypath(u.rsi, STAT, false); break;
                case SYS_newfstatat: { std::string s = peek_str(p, u.rsi); if (s.empty()) byfd(u.rdi, STAT); else bypath(u.rsi, STAT, false); break; }
                case SYS_statx: { std::string s = peek_str(p, u.rsi); if (s.empty()) byfd(u.rdi, STAT); else bypath(u.rsi, STAT, false); break; }
                case SYS_fstat: byfd(u.rdi, STAT); break;
                case SYS_lseek: byfd(u.rdi, SEEK); break;
                case SYS_read: case SYS_pread64: byfd(u.rdi, READ); len = u.rdx; positioned = nr == SYS_pread64; at_off = u.r10; break;
                case SYS_readv: case SYS_preadv: byfd(u.rdi, READ); len = -1; positioned = nr == SYS_preadv; at_off = u.r10; break;
                case SYS_write: case SYS_pwrite64: byfd(u.rdi, WRITE); len = u.rdx; break;
                case SYS_writev: case SYS_pwritev: byfd(u.rdi, WRITE); len = -1; break;
                case SYS_close: byfd(u.rdi, CLOSE); break;
                case SYS_fsync: case SYS_fdatasync: byfd(u.rdi, SYNC); break;
                case SYS_ftruncate: case SYS_fallocate: byfd(u.rdi, TRUNC); break;
                case SYS_truncate: bypath(u.rdi, TRUNC, true); break;
                case SYS_mmap: if (!(u.r10 & MAP_ANONYMOUS)) { byfd(u.r8, MAP); len = u.rsi; at_off = u.r9; } break;
                case SYS_rename: { bypath(u.rsi, MOVE, true); if (kind < 0) bypath(u.rdi, MOVE, true); break; }
                case SYS_renameat: case SYS_renameat2: { bypath(u.r10, MOVE, true); if (kind < 0) bypath(u.rsi, MOVE, true); break; }
                case SYS_unlink: bypath(u.rdi, MOVE, true); break;
                case SYS_unlinkat: bypath(u.rsi, MOVE, true); break;
                case SYS_link: case SYS_symlink: bypath(u.rsi, MOVE, true); break;
                case SYS_dup: byfd(u.rdi, MISC); break;
                }
                if (kind < 0)
                {
                    unsigned long a = 0;
                    switch (nr) { case SYS_openat: if (u.rdx & (O_ACCMODE | O_CREAT | O_TRUNC)) a = u.rsi; break; case SYS_open: if (u.rsi & (O_ACCMODE | O_CREAT | O_TRUNC)) a = u.rdi; break; case SYS_creat: case SYS_mkdir: case SYS_mknod: a = u.rdi; break; case SYS_mkdirat: case SYS_mknodat: case SYS_symlink: case SYS_link: case SYS_rename: a = u.rsi; break; case SYS_linkat: case SYS_renameat: case SYS_renameat2: a = u.r10; break; case SYS_symlinkat: a = u.rdx; break; }
                    if (a) { std::string f = peek_str(p, a); if (!f.empty() && f[0] == '/' && f.compare(0, dir.size(), dir) && f.compare(0, 6, "/proc/") && f != "/dev/null" && f != "/dev/tty") R.foreign.push_back(f); }
                    continue;
                }
                cur = (int)R.evs.size(); e.kind = kind; e.role = role; e.len = len; e.wr = wr; want = u.rdi;
                for (auto &d : devs)
                {
                    if (d.at == cur) dv = &d;
                    else if (d.persist && d.at < cur && d.at < (int)R.evs.size() && R.evs[d.at].kind == kind && R.evs[d.at].role == role) dv = &d;
                }
                if (dv && dv->what == KILL_BEFORE) { finish_kill(); return done(); }
                if (dv && dv->what == ERR && kind != CLOSE) { u.orig_rax = -1; faked = true; ptrace(PTRACE_SETREGS, p, 0, &u); }
                else if (dv && dv->what == END && kind == READ) { u.orig_rax = -1; faked = true; ptrace(PTRACE_SETREGS, p, 0, &u); }
                else if (dv && dv->what == SHORT && (kind == READ || kind == WRITE))
                {
                    // one that stays short: large requests shrink to a quarter, so that a correct loop comes to its end soon
                    long most = dv->persist && len > 16 * dv->val ? len / 4 : dv->val;
                    if (len > dv->val) { u.rdx = most; ptrace(PTRACE_SETREGS, p, 0, &u); }
                    else if (len == -1 && u.rdx > 1) { u.rdx = 1; ptrace(PTRACE_SETREGS, p, 0, &u); }
                }
                if (R.evs.size() > 100000) { R.hung = true; finish_kill(); return done(); }
            }
            else
            {
                entry = true; if (cur < 0) continue;
                if (dv && dv->what == ERR) { u.rax = -dv->val; ptrace(PTRACE_SETREGS, p, 0, &u); }
                else if (faked) { u.rax = 0; ptrace(PTRACE_SETREGS, p, 0, &u); }
                // a failing close or fsync of a written file means that data were lost: make it so
                if (dv && dv->what == ERR && (e.kind == CLOSE || e.kind == SYNC) && e.wr && dv->val != EINTR)
                {
                    auto it = fds.find((int)want); std::string f = it != fds.end() && it->second == OUT ? a_out : ""; struct stat sb;
                    if (!f.empty() && !stat(f.c_str(), &sb) && truncate(f.c_str(), sb.st_size / 2)) perror("truncate");
                }
                e.ret = (long)u.rax;
                if (e.kind == OPEN && e.ret >= 0) { fds[(int)e.ret] = (Role)e.role; fdw[(int)e.ret] = e.wr; }
                if (e.kind == MISC && e.ret >= 0) { fds[(int)e.ret] = (Role)e.role; fdw[(int)e.ret] = e.wr; }
                if (e.kind == CLOSE) { fds.erase((int)want); }
                if (e.kind == OPEN && e.ret >= 0) off[(int)e.ret] = 0;
                if (e.kind == SEEK && e.ret >= 0) off[(int)want] = e.ret;
                if (e.kind == READ && e.role == IN && e.ret > 0) { uint64_t o = positioned ? at_off : off[(int)want]; covered(o, o + e.ret); if (!positioned) off[(int)want] = o + e.ret; }
                if (e.kind == MAP && e.role == IN && e.ret > 0) covered(at_off, at_off + e.len);
                R.evs.push_back(e);
                if (at_stop) at_stop(R, "");
                if (dv && dv->what == KILL_AFTER) { finish_kill(); return done(); }
            }
        }
    }
    std::string captured() { Bytes b; get(dir + "/.stdout", b); return std::string(b.begin(), b.end()); }
};

// the alphabet of environment answers for one call
inline std::vector<Dev> answers(const Ev &e, int at, bool with_persist)
{
    std::vector<Dev> v; auto er = [&](std::initializer_list<long> l) { for (long x : l) v.push_back({at, ERR, x, false}); };
    auto sh = [&]() { long n = e.ret > 0 ? e.ret : 0; for (long k : {1L, n / 2, n - 1}) if (k > 0 && k < n && (v.empty() || v.back().what != SHORT || v.back().val != k)) v.push_back({at, SHORT, k, false}); };
    switch (e.kind)
    {
    case OPEN: er({EACCES, EMFILE, EINTR, EIO}); if (e.wr) er({ENOSPC, EROFS}); break;
    case STAT: er({EIO, EOVERFLOW}); break;
    case SEEK: er({EIO, ESPIPE, EINVAL}); break;
    case READ: er({EIO, EINTR, EISDIR}); v.push_back({at, END, 0, false}); sh(); break;
    case WRITE: er({ENOSPC, EIO, EINTR, EDQUOT, EFBIG}); sh(); break;
    case CLOSE: er({EIO, EINTR}); if (e.wr) er({ENOSPC, EDQUOT}); break;
    case SYNC: er({EIO, ENOSPC}); break;
    case TRUNC: er({EIO, ENOSPC, EINVAL}); break;
    case MAP: er({ENOMEM, ENODEV}); break;
    case MOVE: er({EIO, EACCES, EXDEV}); break;
    default: er({EMFILE}); break;
    }
    if (with_persist) { size_t k = v.size(); for (size_t i = 0; i < k; i++) if (v[i].what == ERR && v[i].val != EINTR && (v[i].val == EIO || v[i].val == ENOSPC || v[i].val == EACCES || v[i].val == ESPIPE)) { v.push_back(v[i]); v.back().persist = true; } else if (v[i].what == SHORT && v[i].val == (e.ret > 2 ? e.ret / 2 : 1)) { v.push_back(v[i]); v.back().persist = true; } }
    return v;
}
// complete and right output for input T? "" if so
inline std::string output_right(const std::string &path, const Bytes &T)
{
    Bytes b; if (!Lab::get(path, b)) return "there is no output file";
    size_t n = T.size(); if (b.size() != n + 8) return "the output has " + std::to_string(b.size()) + " bytes, must have " + std::to_string(n + 8);
    uint64_t last = 0; for (int i = 0; i < 8; i++) last = last << 8 | b[i];
    if (last > n) return "the marker index in the file is " + std::to_string(last) + " for " + std::to_string(n) + " bytes";
    Bytes rows(b.begin() + 8, b.end()); rows.insert(rows.begin() + last, 0); Bytes t = T; t.push_back(0);
    return ref::check(t.data(), n, rows.data(), last, 32);
}
}

namespace fault {
// runs bwt_file in the forked child, with the allocator ledger, and reports through the shared page
inline std::function<void()> file_body(Lab &L, std::function<void()> prep = nullptr)
{
    return [&L, prep]() {
        L.rep->fds = Lab::count_fds(); alloc::reset(); alloc::fill = 0xFF; alloc::realloc_mode = 1; if (prep) prep();
        int o = RUNNING;
        try { alloc::On on; flbwt::bwt_file(L.a_in.c_str(), L.a_out.c_str()); o = RETURNED; }
        catch (std::exception &x) { o = THREW; snprintf(L.rep->what, sizeof L.rep->what, "%s", x.what()); }
        catch (...) { o = THREW_ODD; }
        alloc::on = false; L.rep->live = alloc::live; L.rep->reqs = alloc::reqs; L.rep->frees = alloc::frees; memcpy(L.rep->err, alloc::err, sizeof alloc::err); L.rep->fds = Lab::count_fds() - L.rep->fds; L.rep->outcome = o;
    };
}
inline std::string how_ended(const Run &r, bool program)
{
    if (r.hung) return "hung";
    if (WIFSIGNALED(r.status)) return std::string("killed by ") + strsignal(WTERMSIG(r.status));
    if (program) return "exit status " + std::to_string(WEXITSTATUS(r.status));
    return r.rep.outcome == RETURNED ? "returned" : r.rep.outcome == THREW ? std::string("threw: ") + r.rep.what : r.rep.outcome == THREW_ODD ? "threw something not derived from std::exception" : "exited in the middle with status " + std::to_string(WEXITSTATUS(r.status));
}
// slot -> call: all the calls of a run that has at most `slots`, else the first and the last half of them
inline int event_of_slot(int slot, int slots, size_t calls) { return (int)calls > slots && slot >= slots / 2 ? (int)calls - slots + slot : slot; }
}

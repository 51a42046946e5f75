// C10: two calls at once. The code under test is compiled with clang's thread-sanitizer instrumentation, but
// linked against the scheduler in this file: real threads, one runs at a time, every access to memory that is
// not private to a thread is seen and is a point where the explorer may switch.
//  1. the dependence relation: run both calls, collect non-private accesses (memory, paths, process state).
//     No access of one call conflicts with one of the other => all interleavings are one Mazurkiewicz trace;
//     the explorer then validates this on the finest alternation and both sequential orders.
//  2. otherwise: all schedules with one preemption, then two, at the conflicting accesses; every result is
//     compared with the result of the call alone. An unsynchronised conflicting write is a violation itself.
#include "inputs.hpp"
#include "ref.hpp"
#include "flbwt.hpp"
#include <exception>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <stdexcept>
#include <sys/stat.h>
uint64_t flbwt_verify_base_offset = 0;

// ---- threads of the model
struct Acc { uint64_t addr; uint8_t rw; uint8_t sync; void *pc; };     // addr is an 8 byte granule with a byte mask folded in
struct Thr
{
    int id; uint8_t *arena, *bump, *last, *stack; size_t arena_size, stack_size; sem_t go; bool done; int sync; uint64_t points;
    Acc *tab; uint32_t used; uint8_t *T; size_t Tn;
};
enum { TAB = 1 << 17 };
static Thr th[2]; static __thread Thr *me = nullptr; static bool recording, overflow;
static int policy; static uint64_t sw_at[3]; static int nsw, isw; static uint64_t gpoint; static sem_t finished; static bool filter; static std::vector<uint64_t> *conflicts;
enum { SEQ, ALTERNATE, PREEMPT };

static void pass() { Thr *o = &th[1 - me->id]; if (o->done) return; Thr *s = me; sem_post(&o->go); sem_wait(&s->go); }
static void point(bool interesting)
{
    if (policy == SEQ) return;
    me->points++;
    if (policy == ALTERNATE) { pass(); return; }
    if (!interesting) return;
    uint64_t g = gpoint++; if (isw < nsw && sw_at[isw] == g) { isw++; pass(); }
}
static bool long_run; // own strings count as private
static bool privat(uint64_t a) { return a - (uint64_t)me->arena < me->arena_size || a - (uint64_t)me->stack < me->stack_size || (long_run && a - (uint64_t)me->T <= me->Tn); }
static bool io_search;
static void io_point() { point(io_search); }
static void access1(uint64_t a, int rw, void *pc)
{
    bool in = false;
    if (recording)
    {
        uint32_t h = mc::mix(a) & (TAB - 1); Acc *t = me->tab;
        while (t[h].rw && t[h].addr != a) h = (h + 1) & (TAB - 1);
        if (!t[h].rw) { if (me->used > TAB - TAB / 8) { overflow = true; return; } me->used++; t[h].addr = a; t[h].sync = 1; }
        t[h].rw |= rw; if (!me->sync) t[h].sync = 0;
        if (rw & 2 || !t[h].pc) t[h].pc = pc;
    }
    if (filter) in = std::binary_search(conflicts->begin(), conflicts->end(), a);
    point(in);
}
static void file_access(uint64_t a, int rw, void *pc) { bool f = filter; if (io_search) filter = false; access1(a, rw, pc); filter = f; if (io_search) io_point(); }
static inline __attribute__((always_inline)) void access(void *p, size_t n, int rw, void *pc)
{
    if (!me || !n) return;
    uint64_t a = (uint64_t)p; if (privat(a)) return;
    for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) access1(g, rw, pc);
}
// 8 byte granules: neighbours in one granule may look like a conflict; byte exactness is kept for T, which is only read
static uint64_t path_key(const char *p) { return (1ULL << 62) + (mc::hash(p, strlen(p)) >> 8); }
static const uint64_t PROC = 3ULL << 61;
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, 1, PC); } void __tsan_write##n(void *p) { access(p, n, 2, PC); } void __tsan_unaligned_read##n(void *p) { access(p, n, 1, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, 2, PC); } void __tsan_read_write##n(void *p) { access(p, n, 3, PC); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, 3, PC); } void __tsan_volatile_read##n(void *p) { access(p, n, 1, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, 2, PC); } void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, 1, PC); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, 2, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **p) { access(p, 8, 1, PC); } void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, 2, PC); }
void __tsan_read_range(void *p, size_t n) { access(p, n, 1, PC); } void __tsan_write_range(void *p, size_t n) { access(p, n, 2, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, 1, PC); access(d, n, 2, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((void *)s, n, 1, PC); access(d, n, 2, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, 2, PC); return memset(d, c, n); }
// atomics: synchronised accesses
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int) { if (me) me->sync++; access((void *)p, sizeof(T), 1, PC); if (me) me->sync--; return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##b##_store(volatile T *p, T v, int) { if (me) me->sync++; access((void *)p, sizeof(T), 2, PC); if (me) me->sync--; __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { if (me) me->sync++; access((void *)p, sizeof(T), 3, PC); if (me) me->sync--; __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// memory: each thread has its own arena (malloc is thread-safe: blocks are private until they are published)
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static bool in_arena(void *p) { for (Thr &t : th) if ((uint64_t)p - (uint64_t)t.arena < t.arena_size) return true; return false; }
static void *take(size_t n)
{
    size_t c = (n + 31) / 16 * 16; if (me->bump + c + 16 > me->arena + me->arena_size) return nullptr;
    uint8_t *p = me->bump + 16; me->bump = p + c - 16; ((size_t *)p)[-1] = n; me->last = p; return p;
}
static bool mine_now() { return me && me->arena; }
void *__wrap_malloc(size_t n) { return mine_now() ? take(n) : __real_malloc(n); }
void __wrap_free(void *p) { if (p && !in_arena(p)) __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { if (!mine_now()) return __real_calloc(a, b); void *p = take(a * b); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n)
{
    if (!mine_now() && !in_arena(p)) return __real_realloc(p, n);
    if (!p) return take(n);
    if (p == me->last && (uint8_t *)p + n + 32 < me->arena + me->arena_size) { ((size_t *)p)[-1] = n; me->bump = (uint8_t *)p + (n + 15) / 16 * 16; return p; }
    size_t o = ((size_t *)p)[-1]; void *q = take(n); if (q) memcpy(q, p, o < n ? o : n); return q;
}
// files and process state
// a buffer that the caller gave to a stream is written by every operation on the stream
static struct { FILE *f; void *b; size_t n; } lent[16];
static void lend(FILE *f, void *b, size_t n) { for (auto &l : lent) if (l.f == f || !l.f) { l.f = b ? f : nullptr; l.b = b; l.n = n; return; } }
static void stream_op(FILE *f, void *pc) { if (!me) return; for (auto &l : lent) if (l.f == f && l.f) access(l.b, l.n, 2, pc); io_point(); }
#define FILEOP(key, rw) if (me) { file_access(key, rw, PC); }
FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *p, const char *m) { if (me) FILEOP(path_key(p), m[0] == 'r' && !strchr(m, '+') ? 1 : 2) return __real_fopen(p, m); }
FILE *__real_fopen64(const char *, const char *); FILE *__wrap_fopen64(const char *p, const char *m) { if (me) FILEOP(path_key(p), m[0] == 'r' && !strchr(m, '+') ? 1 : 2) return __real_fopen64(p, m); }
FILE *__real_freopen(const char *, const char *, FILE *); FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { if (me) FILEOP(path_key(p), 2) return __real_freopen(p, m, f); }
int __real_open(const char *, int, mode_t); int __wrap_open(const char *p, int f, mode_t m) { if (me) FILEOP(path_key(p), (f & O_ACCMODE) == O_RDONLY && !(f & (O_CREAT | O_TRUNC)) ? 1 : 2) return __real_open(p, f, m); }
int __real_rename(const char *, const char *); int __wrap_rename(const char *a, const char *b) { if (me) { FILEOP(path_key(a), 2) FILEOP(path_key(b), 2) } return __real_rename(a, b); }
int __real_remove(const char *); int __wrap_remove(const char *a) { FILEOP(path_key(a), 2) return __real_remove(a); }
int __real_unlink(const char *); int __wrap_unlink(const char *a) { FILEOP(path_key(a), 2) return __real_unlink(a); }
int __real_chdir(const char *); int __wrap_chdir(const char *a) { FILEOP(PROC, 2) return __real_chdir(a); }
void __real_srand(unsigned); void __wrap_srand(unsigned a) { FILEOP(PROC + 1, 2) __real_srand(a); }
int __real_rand(); int __wrap_rand() { FILEOP(PROC + 1, 2) return __real_rand(); }
char *__real_setlocale(int, const char *); char *__wrap_setlocale(int c, const char *l) { FILEOP(PROC + 2, l ? 2 : 1) return __real_setlocale(c, l); }
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { access(b, s * n, 2, PC); stream_op(f, PC); return __real_fread(b, s, n, f); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { access((void *)b, s * n, 1, PC); stream_op(f, PC); return __real_fwrite(b, s, n, f); }
int __real_fclose(FILE *); int __wrap_fclose(FILE *f) { stream_op(f, PC); for (auto &l : lent) if (l.f == f) l.f = nullptr; return __real_fclose(f); }
int __real_fflush(FILE *); int __wrap_fflush(FILE *f) { stream_op(f, PC); return __real_fflush(f); }
int __real_setvbuf(FILE *, char *, int, size_t); int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { if (me) { lend(f, b, n); stream_op(f, PC); } return __real_setvbuf(f, b, m, n); }
void __real_setbuf(FILE *, char *); void __wrap_setbuf(FILE *f, char *b) { if (me) { lend(f, b, BUFSIZ); stream_op(f, PC); } __real_setbuf(f, b); }
void __real_setbuffer(FILE *, char *, size_t); void __wrap_setbuffer(FILE *f, char *b, size_t n) { if (me) { lend(f, b, n); stream_op(f, PC); } __real_setbuffer(f, b, n); }
long __real_ftell(FILE *); long __wrap_ftell(FILE *f) { if (me) io_point(); return __real_ftell(f); }
int __real_fseek(FILE *, long, int); int __wrap_fseek(FILE *f, long a, int b) { if (me) io_point(); return __real_fseek(f, a, b); }
// synchronisation: never blocks the one running thread
int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!me) return __real_pthread_mutex_lock(m); while (__real_pthread_mutex_trylock(m)) pass(); me->sync++; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = __real_pthread_mutex_trylock(m); if (me && !r) me->sync++; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (me) me->sync--; return __real_pthread_mutex_unlock(m); }
int __real_pthread_once(pthread_once_t *, void (*)()); static Thr *once_owner;
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) { if (!me) return __real_pthread_once(o, f); while (once_owner && once_owner != me) pass(); Thr *k = once_owner; once_owner = me; me->sync++; int r = __real_pthread_once(o, f); me->sync--; once_owner = k; return r; }
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *); static uint64_t *guard_held[2][16]; static int guard_n[2];
int __wrap___cxa_guard_acquire(uint64_t *g)
{
    if (!me) return __real___cxa_guard_acquire(g);
    for (;;) { bool busy = false; for (int i = 0; i < guard_n[1 - me->id]; i++) if (guard_held[1 - me->id][i] == g) busy = true; if (!busy) break; pass(); }
    int r = __real___cxa_guard_acquire(g); if (r) { if (guard_n[me->id] < 16) guard_held[me->id][guard_n[me->id]++] = g; me->sync++; } return r;
}
void __wrap___cxa_guard_release(uint64_t *g) { if (me && guard_n[me->id]) { guard_n[me->id]--; me->sync--; } __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(uint64_t *g) { if (me && guard_n[me->id]) { guard_n[me->id]--; me->sync--; } __real___cxa_guard_abort(g); }
}
static void *xnew(size_t n) { void *p = mine_now() ? take(n) : __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return xnew(n); }
void *operator new[](size_t n) { return xnew(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

// ---- calls
struct Call { int kind; int input; };          // kind 0: own string borrowed, 1: own string handed over, 2: the shared string, 3: own files, 4: shared input file and own output, 5: invalid string, 6: missing file
static const char *kinds[] = {"bwt_string(own)", "bwt_string(own, free_T)", "bwt_string(shared)", "bwt_file(own files)", "bwt_file(shared input, own output)", "bwt_string(null)", "bwt_file(missing)"};
static std::vector<mc::Bytes> IN; static std::string dir, tmpf; static uint8_t *shared_T; static size_t shared_n;
struct Result { int how; uint64_t last; mc::Bytes rows; bool operator==(const Result &o) const { return how == o.how && last == o.last && rows == o.rows; } };
static std::string fin(int i) { return tmpf + ".in" + std::to_string(i); }
static std::string fout(int i) { return tmpf + ".out" + std::to_string(i); }
static void put(const std::string &p, const mc::Bytes &b) { FILE *f = __real_fopen(p.c_str(), "w"); if (!f) { perror("scratch"); _exit(2); } __real_fwrite(b.data(), 1, b.size(), f); __real_fclose(f); }
static Result perform(Thr *t, const Call &c, const char *in, const char *out)
{
    Result R{0, 0, {}}; size_t n = IN[c.input].size(); flbwt::BWT_result *r = nullptr; me = t;
    try
    {
        switch (c.kind)
        {
        case 0: r = flbwt::bwt_string(t->T, n, false); break;
        case 1: { uint8_t *T = (uint8_t *)take(n + 1); memcpy(T, t->T, n + 1); r = flbwt::bwt_string(T, n, true); break; }
        case 2: n = shared_n; r = flbwt::bwt_string(shared_T, n, false); break;
        case 5: flbwt::bwt_string(nullptr, n, false); break;
        default: flbwt::bwt_file(in, out); R.how = 2; break;
        }
        me = nullptr;
        if (r) { R.how = 1; R.last = r->last; R.rows.assign(r->BWT, r->BWT + n + 1); if (r->last <= n) R.rows[r->last] = 0; }
    }
    catch (std::exception &) { me = nullptr; R.how = 3; }
    catch (...) { me = nullptr; R.how = 4; }
    return R;
}
struct Arg { int id; Call c; Result r; std::string in, out; };
static void *runner(void *v)
{
    Arg *a = (Arg *)v; Thr *t = &th[a->id]; sem_wait(&t->go);
    a->r = perform(t, a->c, a->in.c_str(), a->out.c_str());
    t->done = true; Thr *o = &th[1 - a->id]; if (!o->done) sem_post(&o->go); else sem_post(&finished);
    return nullptr;
}
// run two calls under the current policy
static void pair(const Call c[2], int first, Result res[2])
{
    Arg a[2]; pthread_t pt[2]; isw = 0; gpoint = 0; sem_init(&finished, 0, 0); once_owner = nullptr; guard_n[0] = guard_n[1] = 0;
    for (int i = 0; i < 2; i++)
    {
        Thr &t = th[i]; t.id = i; t.bump = t.arena; t.last = nullptr; t.done = false; t.sync = 0; t.points = 0; if (recording) { memset(t.tab, 0, sizeof(Acc) * TAB); t.used = 0; }
        t.Tn = IN[c[i].input].size(); memcpy(t.T, IN[c[i].input].data(), t.Tn); t.T[t.Tn] = 0; sem_init(&t.go, 0, 0);
        a[i].id = i; a[i].c = c[i]; a[i].in = c[i].kind == 4 ? fin(9) : c[i].kind == 6 ? tmpf + ".none" : fin(i); a[i].out = fout(i);
        if (c[i].kind == 3) put(fin(i), IN[c[i].input]); if (c[i].kind == 4) put(fin(9), IN[0]);
        __real_unlink(fout(i).c_str());
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t.stack, t.stack_size);
        if (pthread_create(&pt[i], &at, runner, &a[i])) { perror("thread"); _exit(2); }
    }
    sem_post(&th[first].go); sem_wait(&finished);
    for (int i = 0; i < 2; i++)
    {
        pthread_join(pt[i], nullptr); res[i] = a[i].r;
        if (c[i].kind == 3 || c[i].kind == 4) { FILE *f = __real_fopen(a[i].out.c_str(), "r"); if (f) { mc::Bytes b(1 << 22); size_t k = __real_fread(b.data(), 1, b.size(), f); __real_fclose(f); b.resize(k); res[i].rows = b; res[i].how += 10; } }
        __real_unlink(fin(i).c_str()); __real_unlink(fout(i).c_str());
    }
    __real_unlink(fin(9).c_str());
}
static ref::Bwt &long_bwt_slot(int input) { static std::map<int, ref::Bwt> cache; return cache[input]; }
// transform of a long string by prefix doubling, computed once per worker
static const ref::Bwt &long_bwt(int input)
{
    ref::Bwt &b = long_bwt_slot(input); if (!b.rows.empty()) return b;
    const mc::Bytes &t = IN[input]; size_t n = t.size(); std::vector<uint32_t> sa(n + 1), rank(n + 1), next(n + 1), cnt; for (size_t i = 0; i <= n; i++) rank[i] = i < n ? t[i] + 1 : 0;
    for (size_t h = 0;; h = h ? h * 2 : 1)
    {
        if (h == 0) { for (size_t i = 0; i <= n; i++) sa[i] = i; std::sort(sa.begin(), sa.end(), [&](uint32_t x, uint32_t y) { return rank[x] < rank[y]; }); }
        else
        { // by the second half, then stably by the first
            std::vector<uint32_t> s2; s2.reserve(n + 1); for (size_t i = n + 1 - std::min(h, n + 1); i <= n; i++) s2.push_back(i); for (uint32_t x : sa) if (x >= h) s2.push_back(x - h);
            cnt.assign(n + 258, 0); for (size_t i = 0; i <= n; i++) cnt[rank[i] + 1]++; for (size_t i = 1; i < cnt.size(); i++) cnt[i] += cnt[i - 1]; for (uint32_t x : s2) sa[cnt[rank[x]]++] = x;
        }
        auto second = [&](uint32_t x) -> uint64_t { return x + h <= n ? rank[x + h] + 1 : 0; }; uint32_t r = 0; next[sa[0]] = 0;
        for (size_t i = 1; i <= n; i++) { if (rank[sa[i]] != rank[sa[i - 1]] || (h && second(sa[i]) != second(sa[i - 1]))) r++; next[sa[i]] = r; }
        rank = next; if (r == n) break;
    }
    b.rows.assign(n + 1, 0); for (size_t i = 0; i <= n; i++) if (sa[i]) b.rows[i] = t[sa[i] - 1]; else b.last = i;
    return b;
}
static Result wanted(const Call &c)
{
    const mc::Bytes &t = c.kind == 2 ? IN[0] : c.kind == 4 ? IN[0] : IN[c.input]; Result R{0, 0, {}};
    if (c.kind == 5 || c.kind == 6) { R.how = 3; return R; }
    ref::Bwt b = t.size() > 5000 ? long_bwt(c.kind == 2 || c.kind == 4 ? 0 : c.input) : ref::bwt(t.data(), t.size());
    if (c.kind < 3) { R.how = 1; R.last = b.last; R.rows = b.rows; return R; }
    R.how = 12; for (int i = 7; i >= 0; i--) R.rows.push_back(b.last >> (8 * i)); for (size_t i = 0; i < b.rows.size(); i++) if (i != b.last) R.rows.push_back(b.rows[i]); return R;
}
static std::string describe(const Result &g, const Result &w)
{
    if (g.how != w.how) return "it " + std::string(g.how % 10 == 3 ? "threw" : g.how % 10 == 4 ? "threw something odd" : g.how < 10 && w.how >= 10 ? "left no output file" : "ended differently");
    if (g.last != w.last) return "marker index " + std::to_string(g.last) + " instead of " + std::to_string(w.last);
    if (g.rows.size() != w.rows.size()) return "output of " + std::to_string(g.rows.size()) + " bytes instead of " + std::to_string(w.rows.size());
    for (size_t i = 0; i < g.rows.size(); i++) if (g.rows[i] != w.rows[i]) return "row / byte " + std::to_string(i) + " is " + std::to_string(g.rows[i]) + " instead of " + std::to_string(w.rows[i]);
    return "";
}
static std::string where(void *pc)
{
    char cmd[600], exe[400]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); if (k < 0) return "?"; exe[k] = 0;
    uint64_t base = 0; FILE *m = __real_fopen("/proc/self/maps", "r"); if (m) { if (fscanf(m, "%lx", &base) != 1) base = 0; __real_fclose(m); }
    snprintf(cmd, sizeof cmd, "addr2line -s -C -f -e '%s' 0x%lx 2>/dev/null | tr '\\n' ' '", exe, (uint64_t)pc - 1 - base); FILE *p = popen(cmd, "r"); std::string s; int ch; while (p && (ch = fgetc(p)) != EOF) s += ch; if (p) pclose(p); return s;
}
static void sharing(Call c0, Call c1, uint64_t off, bool warm, mc::Cx &cx, bool deep)
{
    flbwt_verify_base_offset = off; Call c[2] = {c0, c1}; Result r[2], w[2] = {wanted(c0), wanted(c1)}; shared_n = IN[0].size(); memcpy(shared_T, IN[0].data(), shared_n); shared_T[shared_n] = 0;
    std::string what = std::string(kinds[c0.kind]) + " #" + std::to_string(c0.input) + " || " + kinds[c1.kind] + " #" + std::to_string(c1.input) + (warm ? ", after an earlier call" : ", first calls of the process");
    auto check = [&](const std::string &sched) {
        cx.traces()++; for (int i = 0; i < 2; i++) if (!(r[i] == w[i])) cx.fail("%s; schedule: %s; call %d: %s", what.c_str(), sched.c_str(), i + 1, describe(r[i], w[i]).c_str()); };
    filter = false; recording = false;
    if (warm) { policy = SEQ; pair(c, 0, r); check("one after the other (first time)"); }
    // dependence relation
    recording = true; overflow = false; policy = SEQ; cx.note("%s, one after the other", what.c_str()); pair(c, 0, r); recording = false; check("one after the other");
    if (overflow) { fprintf(stderr, "access table too small\n"); _exit(2); }
    std::vector<uint64_t> conf; std::string race; uint64_t np = th[0].used + th[1].used;
    for (int i = 0; i < TAB; i++)
    {
        Acc &a = th[0].tab[i]; if (!a.rw) continue;
        uint32_t h = mc::mix(a.addr) & (TAB - 1); Acc *t = th[1].tab; while (t[h].rw && t[h].addr != a.addr) h = (h + 1) & (TAB - 1);
        if (!t[h].rw || !((a.rw | t[h].rw) & 2)) continue;
        if (c0.kind == 3 && c1.kind == 3 && 0) continue;
        conf.push_back(a.addr); Acc &wr = (a.rw & 2) && !a.sync ? a : t[h];
        if (((a.rw & 2) && !a.sync) || ((t[h].rw & 2) && !t[h].sync)) if (race.empty()) race = "both calls use " + std::string(a.addr >= PROC ? "the same process-wide state" : a.addr >= (1ULL << 62) ? "the same file" : "the same memory") + ", and at least one writes it without synchronisation, at " + where(wr.pc);
    }
    std::sort(conf.begin(), conf.end()); cx.transitions() += np; cx.ctr("shared_accesses_seen") += np;
    cx.state(mc::hash(mc::hash(c0.kind * 64 + c0.input, c1.kind * 64 + c1.input), off + warm));
    // validation, or search for a schedule that shows it
    if (long_run) { policy = SEQ; pair(c, 1, r); check("second call first"); cx.outcome(mc::hash(conf.size(), np)); if (conf.empty()) { cx.ctr("pairs_with_one_trace_class")++; return; } if (!race.empty()) cx.fail("%s: %s", what.c_str(), race.c_str()); return; }
    policy = ALTERNATE; cx.note("%s, finest alternation", what.c_str()); pair(c, 0, r); check("switch at every shared access"); cx.transitions() += th[0].points + th[1].points; if (deep) { pair(c, 1, r); check("switch at every shared access, second call first"); policy = SEQ; pair(c, 1, r); check("second call first"); }
    cx.outcome(mc::hash(conf.size(), np));
    // files: every schedule with one and two switches at the operations on files and streams, whatever was recorded
    if (deep && c0.kind >= 3 && c0.kind != 5 && c1.kind >= 3 && c1.kind != 5)
    {
        policy = PREEMPT; io_search = true;
        for (int first = 0; first < 2; first++) for (nsw = 1; nsw <= 2; nsw++)
        {
            sw_at[0] = sw_at[1] = ~0ull; pair(c, first, r); uint64_t P = gpoint;
            for (uint64_t i = 0; i < P; i++) for (uint64_t j = nsw == 1 ? P : i + 1; nsw == 1 ? j == P : j < P; j++)
            {
                sw_at[0] = i; sw_at[1] = nsw == 2 ? j : ~0ull; std::string s = "call " + std::to_string(first + 1) + " first, switch at file operation " + std::to_string(i) + (nsw == 2 ? " and at " + std::to_string(j) : ""); cx.note("%s; %s", what.c_str(), s.c_str());
                pair(c, first, r); check(s); cx.transitions() += gpoint; cx.ctr("schedules_explored")++;
            }
        }
        io_search = false;
    }
    if (conf.empty()) { cx.ctr("pairs_with_one_trace_class")++; return; }
    cx.ctr("pairs_with_dependences")++;
    conflicts = &conf; filter = true; policy = PREEMPT;
    for (int first = 0; first < 2; first++) for (nsw = 1; nsw <= 2; nsw++)
    {
        sw_at[0] = sw_at[1] = ~0ull; pair(c, first, r); uint64_t P = std::min<uint64_t>(gpoint, nsw == 1 ? 400 : 40);
        for (uint64_t i = 0; i < P; i++) for (uint64_t j = nsw == 1 ? P : i + 1; nsw == 1 ? j == P : j < P; j++)
        {
            sw_at[0] = i; sw_at[1] = nsw == 2 ? j : ~0ull; std::string s = "call " + std::to_string(first + 1) + " first, switch at its shared access " + std::to_string(i) + (nsw == 2 ? " and at " + std::to_string(j) : ""); cx.note("%s; %s", what.c_str(), s.c_str());
            pair(c, first, r); check(s); cx.transitions() += gpoint; cx.ctr("schedules_explored")++;
        }
    }
    filter = false;
    if (!race.empty()) cx.fail("%s: %s", what.c_str(), race.c_str());
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C10"; ex.args(argc, argv); bool thorough = ex.thorough; dir = ex.workdir; for (const char *s : {"shared_accesses_seen", "pairs_with_one_trace_class", "pairs_with_dependences", "schedules_explored"}) ex.counters.push_back(s);
    auto S = [](const char *s) { return mc::Bytes(s, s + strlen(s)); }; mc::Bytes b;
    IN = {S("mississippi"), S("a"), S("abracadabra"), {0, 255, 0, 255, 1, 0, 254, 255}, mc::Bytes(1100, 'x')};
    inputs::base_word(5, 233, b); IN.push_back(b); inputs::base_word(1, 1500, b); IN.push_back(b); inputs::collide({1}, {100}, "").gen(1, b); IN.push_back(b); inputs::base_word(11, 600, b); IN.push_back(b); b.clear(); for (int i = 0; i < 9; i++) for (char c : std::string("bxaxaxxbyy")) b.push_back(c); IN.push_back(b);
    inputs::names_sparse({257}, "").gen(9, b); IN.push_back(b);
    if (thorough) { inputs::deep(3, 3, 1, 4).gen(333, b); IN.push_back(b); inputs::base_word(9, 2000, b); IN.push_back(b); inputs::base_word(8, 3000, b); IN.push_back(b); b.clear(); b.insert(b.end(), 600, 'b'); b.insert(b.end(), 600, 'a'); IN.push_back(b); }
    ex.worker_init = []() {
        auto map = [](size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return (uint8_t *)p; };
        for (Thr &t : th) { t.arena_size = 256 << 20; t.arena = map(t.arena_size); t.stack_size = 8 << 20; t.stack = map(t.stack_size); t.tab = (Acc *)map(sizeof(Acc) * TAB); t.T = map(1 << 22); }
        shared_T = map(1 << 22); };
    const std::vector<uint64_t> W{0, 0x55d4d4d4d4ull, 0x5a5a7fff0000ull, 0x5a5a8000ffff80ull, 0x2a00ffff0000ff00ull}; auto WW = std::make_shared<std::vector<uint64_t>>(W);
    auto fork_case = [=](mc::Cx &cx, std::function<void()> f) { // each case in a fresh process: cold start, and no history
        struct Pg { char msg[3000]; }; static Pg *pg = nullptr; if (!pg) pg = (Pg *)mmap(0, sizeof(Pg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pg->msg[0] = 0;
        pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); tmpf = dir + "/t" + std::to_string(getpid()); try { f(); } catch (mc::Fail &x) { snprintf(pg->msg, sizeof pg->msg, "%s", x.msg.c_str()); _exit(1); } _exit(0); }
        double t0 = mc::now(); int st; while (waitpid(p, &st, WNOHANG) == 0) { if (mc::now() - t0 > 240) { kill(p, SIGKILL); waitpid(p, &st, 0); cx.fail("two concurrent calls do not end: %s", cx.s->cur); } usleep(500); }
        if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) _exit(2); cx.fail("killed by %s during: %s", strsignal(WTERMSIG(st)), cx.s->cur); }
        if (WEXITSTATUS(st) == 1) cx.fail("%s", pg->msg); if (WEXITSTATUS(st)) _exit(2); };
    uint64_t ni = IN.size(), K = 7;
    ex.add("calls", "every pair of kinds of calls x every pair of probe inputs x first calls of the process or later ones: dependence relation, sequential orders, finest alternation", K * K * ni * ni * 2,
           [=](uint64_t i, mc::Cx &cx) { mc::Radix d(i); int warm = d.pick(2), k0 = d.pick(K), k1 = d.pick(K), a = d.pick(ni), c = d.pick(ni); if (k0 > k1 || (k0 == k1 && a > c)) return; if ((k0 == 2 || k0 >= 4) && a) return; if ((k1 == 2 || k1 >= 4) && c) return; fork_case(cx, [&]() { sharing({k0, a}, {k1, c}, 0, warm, cx, true); }); },
           [=](uint64_t i) { mc::Radix d(i); int warm = d.pick(2), k0 = d.pick(K), k1 = d.pick(K), a = d.pick(ni), c = d.pick(ni); return std::string(kinds[k0]) + " || " + kinds[k1] + (warm ? " warm: " : " cold: ") + mc::show_bytes(IN[a], 12) + " || " + mc::show_bytes(IN[c], 12); }, 300);
    ex.add("widths", "two calls on own strings and on the shared string, every position width, every pair of probe inputs", 2 * ni * ni * (W.size() - 1),
           [=](uint64_t i, mc::Cx &cx) { mc::Radix d(i); uint64_t o = (*WW)[1 + d.pick(WW->size() - 1)]; int k = d.pick(2), a = d.pick(ni), c = d.pick(ni); if (a > c) return; fork_case(cx, [&]() { sharing({k ? 2 : 0, a}, {k ? 2 : 1, c}, o, false, cx, false); }); },
           [=](uint64_t i) { mc::Radix d(i); uint64_t o = (*WW)[1 + d.pick(WW->size() - 1)]; int k = d.pick(2), a = d.pick(ni), c = d.pick(ni); return "origin " + std::to_string(o) + (k ? " shared " : " own ") + mc::show_bytes(IN[a], 12) + " || " + mc::show_bytes(IN[c], 12); }, 300);
    // long strings: static buffers, caches and counters that only they use
    int l0 = IN.size(); for (auto x : std::vector<std::pair<unsigned, uint32_t>>{{1, 300000}, {5, 70000}, {11, 20000}, {9, 66000}, {0, 140000}, {0, 1200000}}) { inputs::base_word(x.first, x.second, b); IN.push_back(b); } inputs::names_sparse({9000}, "").gen(5, b); IN.push_back(b); inputs::twins({5000}, "").gen(77, b); IN.push_back(b);
    if (thorough) for (auto x : std::vector<std::pair<unsigned, uint32_t>>{{8, 400000}, {12, 200000}, {14, 700000}}) { inputs::base_word(x.first, x.second, b); IN.push_back(b); }
    uint64_t nl = IN.size() - l0; const std::vector<std::pair<int, int>> lk{{0, 0}, {0, 1}, {2, 2}, {3, 3}, {0, 3}};
    ex.add("long", "every pair of long strings (20 thousand to 1.2 million bytes) x five pairs of kinds of calls x position widths: dependence relation and both sequential orders", nl * nl * lk.size() * W.size(),
           [=](uint64_t i, mc::Cx &cx) { mc::Radix d(i); uint64_t o = (*WW)[d.pick(WW->size())]; auto k = lk[d.pick(lk.size())]; int x = l0 + d.pick(nl), y = l0 + d.pick(nl); if ((x > y && k.first == k.second) || (o && (x != y || k.first >= 2))) return; if (k.first == 2 && (x != y || IN[x].size() > 800000)) return; long_bwt(x); long_bwt(y);
               fork_case(cx, [&]() { long_run = true; if (k.first == 2) { std::swap(IN[0], IN[x]); ref::Bwt w = long_bwt(x); long_bwt_slot(0) = w; sharing({2, 0}, {2, 0}, o, false, cx, false); } else sharing({k.first, x}, {k.second, y}, o, false, cx, false); }); },
           [=](uint64_t i) { mc::Radix d(i); uint64_t o = (*WW)[d.pick(WW->size())]; auto k = lk[d.pick(lk.size())]; int x = l0 + d.pick(nl); return "origin " + std::to_string(o) + " " + kinds[k.first] + " || " + kinds[k.second] + " " + mc::show_bytes(IN[x], 12) + " || " + mc::show_bytes(IN[l0 + d.v], 12); }, 300, 1);
    std::vector<inputs::Space> sp{inputs::words({'a', 'b'}, 1, thorough ? 9 : 6), inputs::words({0, 255}, 1, 5), inputs::words({'a', 'b', 'c'}, 1, thorough ? 6 : 4)};
    for (auto &s : sp)
        ex.add(s.name + "*pairs", s.rule + ", each against itself and against its successor, own strings and own files", s.size * 4,
               [=](uint64_t i, mc::Cx &cx) { mc::Radix d(i); int f = d.pick(2), nx = d.pick(2); fork_case(cx, [&]() { s.gen(d.v, IN[1]); s.gen((d.v + nx) % s.size, IN[2]); sharing({f ? 3 : 0, 1}, {f ? 3 : 0, 2}, 0, false, cx, false); }); },
               [=](uint64_t i) { mc::Radix d(i); int f = d.pick(2), nx = d.pick(2); return std::string(f ? "files " : "strings ") + inputs::show(s, d.v) + " || " + inputs::show(s, (d.v + nx) % s.size); }, 300);
    ex.assumptions = {"malloc, free and the stream functions of the C library are thread-safe", "accesses made inside the C library to memory that is not its argument are not seen", "two calls without any conflicting access commute; so any number of pairwise non-conflicting calls does", "the string is followed by one zero byte"};
    return ex.main();
}

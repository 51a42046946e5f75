// Environment model of the memory allocator. While `alloc::on` is set, every request of the code under
// test (malloc family by -Wl,--wrap, new/delete by replacement) is answered from a private arena:
// the explorer chooses what fresh memory contains, whether realloc moves, and which request fails;
// the ledger knows all live blocks, their kind and their guard bytes. Single-threaded by design.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t); size_t __real_malloc_usable_size(void *); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
}
namespace alloc {
enum Kind { MALLOC = 1, NEW = 2, NEWA = 3 };
enum Fill { DIRTY = -1 };
struct Head { uint64_t magic, size, cap; uint32_t kind, cls; };
static const uint64_t LIVE = 0x4c4956454c495645ULL, MOVED = 0x4d4f5645444d4f56ULL, DEAD = 0x4445414444454144ULL;
static const size_t CAN = 16;

inline bool on = false;
inline uint8_t *base = nullptr, *bump = nullptr, *lim = nullptr;
inline Head *freel[128];
// choices
inline int fill = DIRTY; inline int fill_limit_log2 = 62; inline int realloc_mode = 0; // 0 always move, 1 in place when it fits, 2 alternate
inline uint64_t fail_at = 0; inline bool persist = false;
// ledger
inline uint64_t reqs = 0, live = 0, live_bytes = 0, peak = 0, reallocs = 0, moved = 0, failed = 0, frees = 0; inline char err[256];
inline const void *watch = nullptr; inline int watch_freed = 0, watch_kind = 0;

// caller-owned memory outside the arena: release of an address in [ext_lo,ext_hi) is recorded here
inline uint8_t *ext_lo = nullptr, *ext_hi = nullptr, *ext_at = nullptr; inline int ext_freed = 0, ext_kind = 0, ext_bad = 0; inline void (*ext_gone)() = nullptr;
enum { REALLOC = 9 };
inline bool ext(void *p, int kind)
{
    if ((uint8_t *)p < ext_lo || (uint8_t *)p >= ext_hi) return false;
    ext_freed++; ext_kind = kind; if ((uint8_t *)p != ext_at) ext_bad++;
    if (ext_gone) ext_gone();
    return true;
}
inline void (*on_request)() = nullptr; // called at the start of every request

inline const char *kn(int k) { return k == MALLOC ? "malloc" : k == NEW ? "new" : k == NEWA ? "new[]" : "?"; }
inline void init(size_t bytes)
{
    base = (uint8_t *)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { perror("arena"); _exit(2); }
    lim = base + bytes; bump = base;
}
inline struct { uint8_t *p; size_t n; bool file; } maps[256];
inline bool mine(const void *p) { return (const uint8_t *)p >= base && (const uint8_t *)p < lim; }
inline void complain(const char *fmt, const char *a, const char *b, size_t s) { if (!err[0]) snprintf(err, sizeof err, fmt, a, b, s); }
inline unsigned cls_of(size_t t, size_t &cap)
{
    if (t <= 64) { cap = 64; return 0; }
    unsigned b = 63 - __builtin_clzl(t - 1); size_t p = (size_t)1 << b; // p < t <= 2p
    size_t h = p + p / 2;
    if (t <= h) { cap = h; return 2 * b; }
    cap = 2 * p; return 2 * b + 1;
}
// forget everything: next run sees the same addresses again (contents stay dirty)
inline void reset()
{
    for (auto &m : maps) m.n = 0;
    bump = base; memset(freel, 0, sizeof freel); reqs = live = live_bytes = peak = reallocs = moved = failed = frees = 0; err[0] = 0; watch = nullptr; watch_freed = 0; watch_kind = 0; fail_at = 0; persist = false;
}
inline void *get(size_t n, int kind)
{
    reqs++; if (on_request) on_request();
    if (fail_at && (reqs == fail_at || (persist && reqs > fail_at))) { failed++; return nullptr; }
    if (n > (size_t)(lim - base)) { failed++; return nullptr; }
    size_t cap; unsigned c = cls_of(sizeof(Head) + n + CAN, cap); Head *h = freel[c];
    if (h) { freel[c] = *(Head **)(h + 1); }
    else { if (bump + cap > lim) { failed++; return nullptr; } h = (Head *)bump; bump += cap; }
    h->magic = LIVE; h->size = n; h->cap = cap; h->kind = kind; h->cls = c;
    uint8_t *p = (uint8_t *)(h + 1);
    if (fill != DIRTY) memset(p, fill, n);
    memset(p + n, 0xC7, CAN);
    live++; live_bytes += n; if (live_bytes > peak) peak = live_bytes;
    return p;
}
inline bool guard_ok(Head *h) { uint8_t *q = (uint8_t *)(h + 1) + h->size; for (size_t i = 0; i < CAN; i++) if (q[i] != 0xC7) return false; return true; }
// a block with a larger alignment: the block's own head lies further down, h->size bytes before v
inline void *get_aligned(size_t align, size_t n, int kind)
{
    if (align <= 32) return get(n, kind);
    uint8_t *p = (uint8_t *)get(n + align, kind); if (!p) return nullptr;
    uint8_t *v = (uint8_t *)(((uintptr_t)p + align - 1) / align * align); if (v != p) { Head *h = (Head *)v - 1; h->magic = MOVED; h->size = v - p; }
    ((Head *)p - 1)->size = v - p + n; live_bytes -= align - (v - p); memset(v + n, 0xC7, CAN); return v;
}
inline uint8_t *start(void *v) { Head *h = (Head *)v - 1; return ((uintptr_t)v & 15) == 0 && h->magic == MOVED ? (uint8_t *)v - h->size : (uint8_t *)v; }
inline void put(void *v, int kind)
{
    if (start(v) != v) { Head *f = (Head *)v - 1; v = start(v); f->magic = DEAD; }
    Head *h = (Head *)v - 1;
    if (((uintptr_t)v & 15) || h->magic == DEAD) { complain("%s%s of a block that is already released%.0zu", "double release", "", 0); return; }
    if (h->magic != LIVE) { complain("release of something that is not the start of a live block (%s%s)%.0zu", kn(kind), "", 0); return; }
    if ((int)h->kind != kind) complain("block from %s released by the counterpart of %s (%zu bytes)", kn(h->kind), kn(kind), h->size);
    if (!guard_ok(h)) complain("write behind the end of a %s block%s of %zu bytes", kn(h->kind), "", h->size);
    if (v == watch) { watch_freed++; watch_kind = kind; }
    h->magic = DEAD; live--; live_bytes -= h->size; frees++;
    if (fill != DIRTY && h->size <= 65536) memset(v, 0xDB, h->size < 8 ? 8 : h->size);
    *(Head **)(h + 1) = freel[h->cls]; freel[h->cls] = h;
}
inline void *grow(void *v, size_t n)
{
    if (!v) return get(n, MALLOC);
    if (start(v) != v) { size_t old = ((Head *)start(v) - 1)->size - ((uint8_t *)v - start(v)); void *q = get(n, MALLOC); if (!q) return nullptr; memcpy(q, v, old < n ? old : n); put(v, MALLOC); return q; }
    Head *h = (Head *)v - 1; reqs++; reallocs++; if (on_request) on_request();
    if (fail_at && (reqs == fail_at || (persist && reqs > fail_at))) { failed++; return nullptr; }
    reqs--;
    if (h->magic != LIVE || h->kind != MALLOC) { complain("realloc of an invalid block%s%s%.0zu", "", "", 0); return nullptr; }
    if (!guard_ok(h)) complain("write behind the end of a %s block%s of %zu bytes", kn(h->kind), "", h->size);
    bool inplace = realloc_mode == 1 || (realloc_mode == 2 && (reallocs & 1));
    if (inplace && sizeof(Head) + n + CAN <= h->cap)
    {
        reqs++; uint8_t *p = (uint8_t *)v; if (n > h->size && fill != DIRTY) memset(p + h->size, fill, n - h->size);
        live_bytes += n - h->size; if (live_bytes > peak) peak = live_bytes; h->size = n; memset(p + n, 0xC7, CAN); return v;
    }
    size_t old = h->size; uint64_t pk = peak; void *q = get(n, MALLOC); if (!q) return nullptr;
    memcpy(q, v, old < n ? old : n); put(v, MALLOC); moved++; frees--;
    peak = pk > live_bytes ? pk : live_bytes; // a moving realloc is counted once, by its new size
    return q;
}
// memory that is mapped in and out: a request and a live block like the others
inline void unmapped(uint8_t *p, size_t n)
{
    for (auto &m : maps) if (m.n && p <= m.p && m.p + m.n <= p + n) { if (!m.file) live_bytes -= m.n; live--; m.n = 0; }
}
struct On { bool old; On() : old(on) { on = true; } ~On() { on = old; } };
struct Off { bool old; Off() : old(on) { on = false; } ~Off() { on = old; } };
}
#ifdef MC_ALLOC_IMPL
extern "C" {
void *__wrap_malloc(size_t n) { return alloc::on ? alloc::get(n, alloc::MALLOC) : __real_malloc(n); }
void __wrap_free(void *p) { if (!p) return; if (alloc::ext_hi && alloc::ext(p, alloc::MALLOC)) return; if (alloc::mine(p)) alloc::put(p, alloc::MALLOC); else __real_free(p); }
void *__wrap_calloc(size_t a, size_t b)
{
    if (!alloc::on) return __real_calloc(a, b);
    if (b && a > (size_t)-1 / b) return nullptr;
    void *p = alloc::get(a * b, alloc::MALLOC); if (p) memset(p, 0, a * b); return p;
}
void *__wrap_realloc(void *p, size_t n) { if (alloc::ext_hi && p && alloc::ext(p, alloc::REALLOC)) return nullptr; return alloc::mine(p) || (alloc::on && !p) ? alloc::grow(p, n) : __real_realloc(p, n); }
void *__wrap_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return __wrap_realloc(p, a * b); }
int __wrap_posix_memalign(void **out, size_t al, size_t n)
{
    if (!alloc::on) return __real_posix_memalign(out, al, n);
    if (al % sizeof(void *) || !al || (al & (al - 1))) return EINVAL;
    void *p = alloc::get_aligned(al, n, alloc::MALLOC); if (!p) return ENOMEM;
    *out = p; return 0;
}
void *__wrap_memalign(size_t al, size_t n) { void *p = nullptr; int e = __wrap_posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n); if (e) { errno = e; return nullptr; } return p; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return __wrap_memalign(al, n); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); return p ? (char *)memcpy(p, s, n) : nullptr; }
size_t __wrap_malloc_usable_size(void *p) { if (!p || !alloc::mine(p)) return __real_malloc_usable_size(p); uint8_t *b = alloc::start(p); return ((alloc::Head *)b - 1)->size - ((uint8_t *)p - b); }
void *__wrap_mmap(void *at, size_t n, int prot, int flags, int fd, off_t o)
{
    if (!alloc::on) return __real_mmap(at, n, prot, flags, fd, o);
    alloc::reqs++; if (alloc::on_request) alloc::on_request();
    if (alloc::fail_at && (alloc::reqs == alloc::fail_at || (alloc::persist && alloc::reqs > alloc::fail_at))) { alloc::failed++; errno = ENOMEM; return MAP_FAILED; }
    void *p = __real_mmap(at, n, prot, flags, fd, o); if (p == MAP_FAILED) return p;
    bool file = !(flags & MAP_ANONYMOUS); n = (n + 4095) / 4096 * 4096; alloc::live++; if (!file) { alloc::live_bytes += n; if (alloc::live_bytes > alloc::peak) alloc::peak = alloc::live_bytes; }
    for (auto &m : alloc::maps) if (!m.n) { m.p = (uint8_t *)p; m.n = n; m.file = file; break; }
    return p;
}
int __wrap_munmap(void *p, size_t n) { int r = __real_munmap(p, n); if (!r) alloc::unmapped((uint8_t *)p, (n + 4095) / 4096 * 4096); return r; }
}
// as the library's operator new does it: the installed handler is called until there is memory
static void *mc_new(size_t n, int k, size_t al = 16)
{
    for (;;)
    {
        void *p = alloc::on ? alloc::get_aligned(al, n, k) : nullptr;
        if (!alloc::on && al <= 16) p = __real_malloc(n ? n : 1); else if (!alloc::on && __real_posix_memalign(&p, al, n ? n : 1)) p = nullptr;
        if (p) return p;
        std::new_handler h = std::get_new_handler(); if (!h) throw std::bad_alloc();
        h();
    }
}
static void *mc_new_nothrow(size_t n, int k, size_t al = 16) { try { return mc_new(n, k, al); } catch (...) { return nullptr; } }
static void mc_del(void *p, int k) { if (!p) return; if (alloc::ext_hi && alloc::ext(p, k)) return; if (alloc::mine(p)) alloc::put(p, k); else __real_free(p); }
void *operator new(size_t n) { return mc_new(n, alloc::NEW); }
void *operator new[](size_t n) { return mc_new(n, alloc::NEWA); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mc_new_nothrow(n, alloc::NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return mc_new_nothrow(n, alloc::NEWA); }
void operator delete(void *p) noexcept { mc_del(p, alloc::NEW); }
void operator delete[](void *p) noexcept { mc_del(p, alloc::NEWA); }
void operator delete(void *p, size_t) noexcept { mc_del(p, alloc::NEW); }
void operator delete[](void *p, size_t) noexcept { mc_del(p, alloc::NEWA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mc_del(p, alloc::NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mc_del(p, alloc::NEWA); }
#ifdef __cpp_aligned_new
void *operator new(size_t n, std::align_val_t a) { return mc_new(n, alloc::NEW, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return mc_new(n, alloc::NEWA, (size_t)a); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return mc_new_nothrow(n, alloc::NEW, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return mc_new_nothrow(n, alloc::NEWA, (size_t)a); }
void operator delete(void *p, std::align_val_t) noexcept { mc_del(p, alloc::NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { mc_del(p, alloc::NEWA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { mc_del(p, alloc::NEW); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { mc_del(p, alloc::NEWA); }
void operator delete(void *p, std::align_val_t, const std::nothrow_t &) noexcept { mc_del(p, alloc::NEW); }
void operator delete[](void *p, std::align_val_t, const std::nothrow_t &) noexcept { mc_del(p, alloc::NEWA); }
#endif
#endif

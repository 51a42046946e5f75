// Strings u w^k v of gigabytes. Their transform is known by run lengths: for these words every run of the
// transform grows by a constant per step of k (checked on the reference for small k), so the rows for any k follow.
#pragma once
#include <fcntl.h>
#include <sys/file.h>
#include "inputs.hpp"
#include "ref.hpp"

namespace big {
typedef std::vector<uint8_t> Bytes;
struct Family { Bytes u, w, v; };
struct Run { int c; uint64_t len; };        // c == 256: the marker
struct Form { std::vector<Run> runs; uint64_t last, n; };
inline Bytes make(const Family &f, unsigned k) { Bytes o = f.u; while (k--) o.insert(o.end(), f.w.begin(), f.w.end()); o.insert(o.end(), f.v.begin(), f.v.end()); return o; }
inline Form small_form(const Family &f, unsigned k)
{
    Bytes t = make(f, k); ref::Bwt b = ref::bwt(t.data(), t.size()); Form r; r.last = b.last; r.n = t.size();
    for (size_t i = 0; i <= t.size(); i++) { int c = i == b.last ? 256 : b.rows[i]; if (r.runs.empty() || r.runs.back().c != c) r.runs.push_back({c, 0}); r.runs.back().len++; }
    return r;
}
inline Form scale(const Form &a, const Form &b, uint64_t k0, uint64_t k)
{
    Form r = a; if (a.runs.size() != b.runs.size()) { fprintf(stderr, "family is not regular\n"); _exit(2); }
    for (size_t i = 0; i < a.runs.size(); i++) { if (a.runs[i].c != b.runs[i].c) { fprintf(stderr, "family is not regular\n"); _exit(2); } r.runs[i].len += (k - k0) * (b.runs[i].len - a.runs[i].len); }
    r.last += (k - k0) * (b.last - a.last); r.n += (k - k0) * (b.n - a.n); return r;
}
inline Form form(const Family &f, uint64_t k)
{
    Form a = small_form(f, 60), b = small_form(f, 61);
    for (unsigned t : {62u, 75u, 120u}) { Form x = small_form(f, t), y = scale(a, b, 60, t); bool ok = x.last == y.last && x.runs.size() == y.runs.size(); for (size_t i = 0; ok && i < x.runs.size(); i++) ok = x.runs[i].len == y.runs[i].len; if (!ok) { fprintf(stderr, "family is not regular\n"); _exit(2); } }
    return scale(a, b, 60, k);
}
// rows with a slot for the marker (its content is ignored), or without
inline std::string compare(const Form &f, const uint8_t *rows, bool slot)
{
    uint64_t p = 0;
    for (auto &r : f.runs)
    {
        if (r.c == 256) { if (slot) p += r.len; continue; }
        for (uint64_t i = 0; i < r.len; i++, p++) if (rows[p] != r.c) return "row " + std::to_string(p) + " is " + std::to_string(rows[p]) + ", must be " + std::to_string(r.c);
    }
    return "";
}
inline void fill(const Family &f, uint64_t k, uint8_t *T)
{
    memcpy(T, f.u.data(), f.u.size()); T += f.u.size();
    if (f.w.size() == 1) { memset(T, f.w[0], k); T += k; }
    else { uint64_t tot = k * f.w.size(); for (size_t i = 0; i < f.w.size(); i++) T[i] = f.w[i]; uint64_t have = f.w.size(); while (have < tot) { uint64_t c = std::min(have, tot - have); memcpy(T + have, T, c); have += c; } T += tot; }
    memcpy(T, f.v.data(), f.v.size()); T[f.v.size()] = 0;
}
inline std::string show(const Family &f, uint64_t k)
{
    auto s = [](const Bytes &b) { std::string o; for (uint8_t c : b) o += std::to_string(c) + " "; return o; };
    return s(f.u) + "(" + s(f.w) + ")^" + std::to_string(k) + " " + s(f.v) + "n=" + std::to_string(f.u.size() + f.v.size() + k * f.w.size());
}
// one such case at a time: memory
struct Alone { int fd; Alone(const std::string &dir) { fd = open((dir + "/alone").c_str(), O_CREAT | O_RDWR, 0600); while (flock(fd, LOCK_EX) && errno == EINTR) {} } ~Alone() { close(fd); } };
}

// C13: the substring dictionary against a map, over all operation histories in the bounds.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "hashtable.hpp"
#include <exception>
#include <map>
typedef mc::Bytes Bytes;

struct Model
{
    struct Val { bool named; uint64_t name; };
    std::map<Bytes, Val> m;
};
struct Dict
{
    flbwt::HashTable *h; Model mod; mc::Cx &cx;
    Dict(uint64_t size, uint64_t n, mc::Cx &c, uint64_t hb = 0) : cx(c) { alloc::On on; h = new flbwt::HashTable(size, n); if (hb) h->HBSIZE = hb; }
    ~Dict() { alloc::On on; delete h; }
    void insert(const Bytes &s)
    {
        static Bytes b; b = s; int r; { alloc::On on; r = h->insert_string(s.size(), b.data()); }
        int want = mod.m.count(s) ? 0 : 1;
        if (r != want) cx.fail("inserting %s returned %d, must return %d", mc::show_bytes(s, 20).c_str(), r, want);
        if (want) mod.m[s] = {false, 0};
        cx.transitions()++;
    }
    // records in table order, as the transform walks them
    template <class F> void records(F f)
    {
        uint64_t guard = 0;
        for (uint64_t i = 0; i < h->HTSIZE; i++)
            for (uint64_t p = h->head[i]; p != 0;)
            {
                if (++guard > 10000000) cx.fail("walking the records does not end");
                if (p >= h->bufsize) cx.fail("a record lies outside the buffer");
                uint8_t *r = h->buf + p; uint64_t l = h->get_length(r);
                if (l == 0) break;
                if (l == 2) { p = h->get_pointer(r); continue; }
                if (l > h->bufsize) cx.fail("a record has length %" PRIu64 ", more than the whole buffer", l);
                f(r, l); p += h->string_info_length(r, l);
            }
    }
    void name(const Bytes &s, uint64_t v)
    {
        bool done = false;
        records([&](uint8_t *r, uint64_t l) { if (l == s.size() && !memcmp(h->get_first_character_pointer(r), s.data(), l)) { if (done) cx.fail("a string is stored twice"); h->set_name(r, v); done = true; } });
        if (done != !!mod.m.count(s)) cx.fail("walking the records %s %s", done ? "finds the never inserted" : "does not find", mc::show_bytes(s, 20).c_str());
        if (done) { mod.m[s].named = true; mod.m[s].name = v; }
        cx.transitions()++;
    }
    void find(const Bytes &s)
    {
        auto it = mod.m.find(s); uint64_t v = 0; bool threw = false;
        try { static Bytes b; b = s; v = h->find_name(s.size(), b.data()); } catch (std::exception &) { threw = true; }
        if (threw != (it == mod.m.end())) cx.fail("lookup of %s %s", mc::show_bytes(s, 20).c_str(), threw ? "throws although it was inserted" : "returns although it was never inserted");
        if (!threw && it->second.named && v != it->second.name) cx.fail("lookup of %s returns %" PRIu64 ", its name is %" PRIu64, mc::show_bytes(s, 20).c_str(), v, it->second.name);
        cx.transitions()++;
    }
    void all()
    {
        std::map<Bytes, int> seen;
        records([&](uint8_t *r, uint64_t l) {
            const uint8_t *c = h->get_first_character_pointer(r);
            if (c + l > h->buf + h->bufsize) cx.fail("a record reaches behind the buffer");
            Bytes s(c, c + l); auto it = mod.m.find(s);
            if (it == mod.m.end()) cx.fail("the dictionary holds %s, which was never inserted", mc::show_bytes(s, 20).c_str());
            if (seen[s]++) cx.fail("the dictionary holds %s twice", mc::show_bytes(s, 20).c_str());
            if (it->second.named && h->get_name(r) != it->second.name) cx.fail("the stored name of %s is %" PRIu64 ", must be %" PRIu64, mc::show_bytes(s, 20).c_str(), h->get_name(r), it->second.name); });
        if (seen.size() != mod.m.size()) cx.fail("the dictionary holds %zu strings, must hold %zu", seen.size(), mod.m.size());
        for (auto &k : mod.m) find(k.first);
        if (alloc::err[0]) cx.fail("%s", alloc::err);
    }
};
static void prep(uint64_t i, int mode = -1) { alloc::reset(); static const int f[] = {0x00, 0xFF, 0x5A, 0x02}; alloc::fill = f[i & 3]; alloc::realloc_mode = mode >= 0 ? mode : (i >> 2) & 1 ? 2 : 0; }
static void fin(Dict *d, mc::Cx &cx) { d->all(); cx.outcome(mc::hash(d->mod.m.size(), d->h->collisions)); delete d; if (alloc::err[0]) cx.fail("%s", alloc::err); cx.traces()++; }

int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C13"; ex.args(argc, argv); bool th = ex.thorough;
    ex.worker_init = []() { alloc::init(4ULL << 30); };
    // --- operation histories
    // pool: equal lengths, prefixes of each other, permutations, bytes 0/1/2/255 that look like record fields
    std::vector<Bytes> pool{{0, 0, 0}, {1, 2, 0}, {0, 0, 0, 0}, {255, 255, 255}, {1, 2, 0, 0, 0, 0, 0, 0, 0, 9, 0}, {0, 2, 1}, {97, 98, 97}};
    struct Cfg { uint64_t ht, hb, n; };
    std::vector<Cfg> cfgs{{1, 0, 10}, {2, 0, 600}, {3, 64, 200000}, {67777, 0, 70000}};
    unsigned np = th ? 7 : 6, depth = th ? 7 : 6;
    for (auto c : cfgs)
    {
        unsigned d = c.ht > 1000 ? 3 : depth; uint64_t ops = 2 * np, tot = 0; for (unsigned k = 1; k <= d; k++) tot += inputs::ipow(ops, k);
        // only histories that start with an insertion and end with one (a trailing naming or a leading naming of nothing adds nothing): all lengths
        auto dec = [=](uint64_t i, std::vector<int> &h) { unsigned k = 1; while (i >= inputs::ipow(ops, k)) { i -= inputs::ipow(ops, k); k++; } h.resize(k); for (auto &x : h) { x = i % ops; i /= ops; } };
        ex.add("histories-HT" + std::to_string(c.ht) + "-HB" + std::to_string(c.hb ? c.hb : 512) + "-n" + std::to_string(c.n), "every sequence of 1.." + std::to_string(d) + " operations insert(s) / name(s, fresh name) over " + std::to_string(np) + " strings", tot,
               [=](uint64_t i, mc::Cx &cx) {
                   std::vector<int> h; dec(i, h); prep(i); Dict *D = new Dict(c.ht, c.n, cx, c.hb); uint64_t nm = 0, mx = c.n / 2 + 1;
                   uint64_t fp = 0;
                   for (int o : h) { if (o < (int)np) D->insert(pool[o]); else { nm++; D->name(pool[o - np], (nm & 1) ? mx - nm / 2 % mx : nm % mx); } fp = 0; for (auto &e : D->mod.m) fp = mc::hash(mc::hash(e.first.data(), e.first.size(), fp), e.second.named ? e.second.name + 1 : 0); cx.state(mc::hash(fp, c.ht * 77 + c.hb)); }
                   for (auto &s : pool) D->find(s);
                   fin(D, cx); },
               [=](uint64_t i) { std::vector<int> h; dec(i, h); std::string s; for (int o : h) s += std::string(o < (int)np ? "insert(" : "name(") + mc::show_bytes(pool[o % np]) + ") "; return s; });
    }
    // --- block boundaries: strings of lengths a, b, c in one slot, all alignments against the block end
    {
        uint64_t A = th ? 1100 : 560, B = th ? 60 : 24, C = th ? 24 : 8;
        ex.add("block-ends", "three strings of lengths 3..a+3, 3..b+3, 3..c+3 into one slot: every alignment of a record against the end of a block", A * B * C, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); uint64_t c = 3 + r.pick(C), b = 3 + r.pick(B), a = 3 + r.pick(A); prep(i, 2);
            Dict *D = new Dict(1, 1000, cx); Bytes x(a, 7), y(b, 9), z(c, 0); y[0] = 255; z[c - 1] = 2; D->insert(x); D->insert(y); D->insert(z); D->insert(x); D->insert(y); D->name(y, 3); D->name(x, 2); D->name(z, 501); D->insert(z);
            cx.state(mc::hash(a, b * 100000 + c)); fin(D, cx); },
            [=](uint64_t i) { mc::Radix r(i); uint64_t c = 3 + r.pick(C), b = 3 + r.pick(B), a = 3 + r.pick(A); return "lengths " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c); });
    }
    // --- many strings of equal length l in one slot, all alignments
    {
        uint64_t L = th ? 300 : 130; std::vector<uint32_t> Ms{1, 2, 3, 5, 40, 150}; std::vector<uint64_t> ns{10, 600, 200000, 1ull << 26};
        ex.add("fill", "m strings of length l in 1 or 3 slots (l = 3.., m in a set, four name widths): many full blocks, each record found, then every string inserted again", L * Ms.size() * ns.size() * 2, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); uint64_t ht = r.pick(2) ? 3 : 1, n = ns[r.pick(ns.size())]; uint32_t m = Ms[r.pick(Ms.size())]; uint64_t l = 3 + r.pick(L); prep(i, 2); Dict *D = new Dict(ht, n, cx);
            auto S = [&](uint32_t k) { Bytes s(l, 1); s[l - 1] = k; s[l - 2] = k >> 8; s[0] = k * 7; return s; };
            for (uint32_t k = 0; k < m; k++) D->insert(S(k));
            for (uint32_t k = m; k-- > 0;) D->insert(S(k));
            uint64_t k = 0; std::map<Bytes, uint64_t> nm; D->records([&](uint8_t *p, uint64_t len) { const uint8_t *c = D->h->get_first_character_pointer(p); uint64_t v = k++ % (n / 2 + 2); D->h->set_name(p, v); Bytes s(c, c + len); if (D->mod.m.count(s)) D->mod.m[s] = {true, v}; });
            cx.state(mc::hash(l, mc::hash(m, n * 4 + ht))); for (uint32_t q = m; q < m + 3; q++) D->find(S(q)); fin(D, cx); },
            [=](uint64_t i) { mc::Radix r(i); uint64_t ht = r.pick(2) ? 3 : 1, n = ns[r.pick(ns.size())]; uint32_t m = Ms[r.pick(Ms.size())]; uint64_t l = 3 + r.pick(L); return std::to_string(m) + " strings of length " + std::to_string(l) + ", " + std::to_string(ht) + " slots, n=" + std::to_string(n); });
    }
    // --- lengths around every change of the length encoding, with a neighbour behind
    {
        std::vector<uint64_t> Ls; for (uint64_t l : {128u, 256u, 512u, 768u, 1024u, 4096u, 32768u, 65280u, 65536u, 65792u, 131072u, 196608u, 1048576u, 16711680u, 16777216u}) for (int64_t d = (l > 200000 ? -1 : -3); d <= (l > 200000 ? 1 : 3); d++) Ls.push_back(l + d);
        ex.add("lengths", "a long string (lengths around every change of the length encoding and multiples of 256 and 65536), a second one that differs in the last byte only, and a short one, in every order, one slot", Ls.size() * 6 * 3, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); unsigned f = r.pick(3), o = r.pick(6); uint64_t l = Ls[r.pick(Ls.size())]; prep(f, 2); Dict *D = new Dict(1, 1000, cx);
            Bytes s[3]; s[0].assign(l, 200); s[1] = s[0]; s[1][l - 1] = 0; s[2] = {5, 6, 5}; static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            for (int k : P[o]) D->insert(s[k]);
            for (int k = 0; k < 3; k++) { D->insert(s[k]); D->name(s[k], 500 - k); }
            Bytes t(s[0].begin(), s[0].end() - 1); D->find(t); cx.state(mc::hash(l, i % 18)); fin(D, cx); },
            [=](uint64_t i) { mc::Radix r(i); unsigned f = r.pick(3), o = r.pick(6); return "length " + std::to_string(Ls[r.pick(Ls.size())]) + " order " + std::to_string(o) + " memory pattern " + std::to_string(f); }, 120, 6);
    }
    // --- name width: n around every power of two x names around every power of two
    {
        std::vector<uint64_t> ns{1, 2, 3, 4, 5}; for (unsigned k = 3; k < 62; k++) for (int64_t d = -3; d <= 3; d++) ns.push_back((1ull << k) + d);
        ex.add("name-widths", "input lengths n around every power of two; every name around a power of two up to n/2+1 is stored and read back between two neighbours", ns.size(), [=](uint64_t i, mc::Cx &cx) {
            uint64_t n = ns[i], mx = n / 2 + 1; prep(i); Dict *D = new Dict(1, n, cx); Bytes a{1, 2, 3}, b{9, 9, 9}, c{0, 1, 0}; D->insert(a); D->insert(b); D->insert(c); D->name(a, mx); D->name(c, mx);
            std::vector<uint64_t> vs{0, 1, 2, mx, mx - 1, mx / 2, mx / 3}; for (unsigned k = 1; k < 62; k++) for (int64_t d = -1; d <= 1; d++) vs.push_back((1ull << k) + d);
            for (uint64_t v : vs) if (v <= mx) { D->name(b, v); D->find(a); D->find(b); D->find(c); cx.state(mc::hash(n, v)); }
            fin(D, cx); }, [=](uint64_t i) { return "n=" + std::to_string(ns[i]); });
    }
    // --- real table size: all strings of length 3 over an alphabet, and crafted collisions
    {
        std::vector<Bytes> AL{{0, 1, 2, 101, 102, 203}, {0, 50, 100, 101, 150, 200, 255}, {253, 254, 255, 0}};
        ex.add("real-table", "all strings of lengths 3..5 over an alphabet with many base-101 collisions, inserted in three orders into a table of 67777 (or 101, 7) slots", AL.size() * 3 * 3, [=](uint64_t i, mc::Cx &cx) {
            mc::Radix r(i); const Bytes &L = AL[r.pick(AL.size())]; unsigned o = r.pick(3); uint64_t ht = ((uint64_t[]){67777, 101, 7})[r.pick(3)]; prep(i, 1); Dict *D = new Dict(ht, 100000, cx);
            std::vector<Bytes> all; for (unsigned len = 3; len <= (ht == 7 ? 4 : 5); len++) { if (len == 5 && L.size() > 6) break; for (uint64_t k = 0; k < inputs::ipow(L.size(), len); k++) { Bytes s(len); uint64_t v = k; for (auto &x : s) { x = L[v % L.size()]; v /= L.size(); } all.push_back(s); } }
            if (o == 1) std::reverse(all.begin(), all.end()); if (o == 2) for (size_t k = 0; k < all.size(); k++) std::swap(all[k], all[(k * 7919) % all.size()]);
            for (size_t k = 0; k < all.size(); k += 2) D->insert(all[k]);
            for (size_t k = 1; k < all.size(); k += 2) D->find(all[k]);
            for (auto &s : all) D->insert(s);
            uint64_t k = 0; D->records([&](uint8_t *p, uint64_t len) { const uint8_t *c = D->h->get_first_character_pointer(p); uint64_t v = k++; D->h->set_name(p, v); Bytes s(c, c + len); if (D->mod.m.count(s)) D->mod.m[s] = {true, v}; });
            cx.state(mc::hash(1, i)); fin(D, cx); }, [=](uint64_t i) { mc::Radix r(i); const Bytes &L = AL[r.pick(AL.size())]; unsigned o = r.pick(3), t = r.pick(3); return "alphabet " + mc::show_bytes(L) + " order " + std::to_string(o) + " table " + std::to_string(t); }, 120, 1);
        std::vector<uint32_t> ks = th ? inputs::cat({inputs::range(0, 60), inputs::range(100, 130), inputs::range(240, 260)}) : inputs::cat({inputs::range(0, 40), inputs::range(116, 126), inputs::range(248, 256)}), Ms{2, 3, 40, 47, 48, 100, 200};
        for (auto sp : {inputs::collide(ks, Ms, "slot"), inputs::collide_middle({0, 1, 3, 7, 8, 15, 16, 31, 32, 64, 100, 255, 256}, {0, 1, 3, 7, 8, 15, 16, 31, 32, 64, 100, 255, 256}, {2, 3, 20, 60})})
        ex.add(sp.name == "collide-slot" ? "collisions" : "collisions-middle", sp.name == "collide-slot" ? "M distinct strings of equal length in one slot of a table of 67777" : "the same with strings that agree in long heads and tails", sp.size, [=](uint64_t i, mc::Cx &cx) {
            static Bytes T; sp.gen(i, T); prep(i, 2); Dict *D = new Dict(67777, T.size(), cx); // pieces between zeros, each with the next zero
            size_t p = 0; std::vector<Bytes> v; for (size_t q = 1; q < T.size(); q++) if (T[q] == 0) { v.push_back(Bytes(T.begin() + p, T.begin() + q + 1)); p = q; }
            for (auto &s : v) if (s.size() >= 3) D->insert(s);
            for (auto &s : v) if (s.size() >= 3) { Bytes t = s; t[1] ^= 1; D->find(t); t = s; t.push_back(0); D->find(t); }
            uint64_t k = 0; D->records([&](uint8_t *r, uint64_t len) { const uint8_t *c = D->h->get_first_character_pointer(r); uint64_t w = k++; D->h->set_name(r, w); Bytes s(c, c + len); if (D->mod.m.count(s)) D->mod.m[s] = {true, w}; });
            cx.state(mc::hash(T.data(), T.size())); fin(D, cx); }, [=](uint64_t i) { return inputs::show(sp, i); });
    }
    // --- every slot of the real table
    ex.add("every-slot", "one string in every slot of a table of 67777 slots, ascending / descending / all in one half first, four memory patterns; then a second string of another length in every slot", 3 * 4, [=](uint64_t i, mc::Cx &cx) {
        mc::Radix r(i); unsigned o = r.pick(3); prep(r.pick(4), 1); Dict *D = new Dict(67777, 300000, cx); auto &P = inputs::slot_pieces(); uint64_t n = P.size();
        auto at = [&](uint64_t k) { return o == 0 ? k : o == 1 ? n - 1 - k : k < n / 2 ? n / 2 + k : k - n / 2; };
        for (uint64_t k = 0; k < n; k++) { const Bytes &s = P[at(k)]; if (s.empty()) cx.fail("no string for slot %" PRIu64, at(k)); D->insert(s); }
        for (uint64_t k = 0; k < n; k += 7) D->find(P[k]);
        for (uint64_t k = 0; k < n; k += 3) { Bytes s(1, 0); s.insert(s.end(), P[k].begin(), P[k].end()); D->insert(s); }
        uint64_t q = 0; D->records([&](uint8_t *p, uint64_t len) { const uint8_t *c = D->h->get_first_character_pointer(p); uint64_t v = ++q; D->h->set_name(p, v); Bytes s(c, c + len); if (D->mod.m.count(s)) D->mod.m[s] = {true, v}; });
        cx.state(mc::hash(n, i)); fin(D, cx); }, [=](uint64_t i) { return "case " + std::to_string(i); }, 300, 1);
    // --- record fields alone
    {
        std::vector<uint64_t> vs; for (unsigned k = 0; k < 64; k++) for (int64_t d = -2; d <= 2; d++) { uint64_t v = (1ull << k) + d; if (v && v < (1ull << 63)) vs.push_back(v); } for (uint64_t v : {0x0100000000ull, 0x10000ull, 0xff00ff00ull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x0102030405060708ull}) vs.push_back(v);
        ex.add("fields", "lengths and block pointers around every power of two, written over four memory patterns and read back", vs.size() * 4, [=](uint64_t i, mc::Cx &cx) {
            static flbwt::HashTable h(3, 100); uint64_t v = vs[i / 4]; uint8_t b[48]; static const uint8_t f[] = {0, 255, 0x5A, 2}; memset(b, f[i & 3], 48);
            h.set_length(b + 8, v); if (h.get_length(b + 8) != v) cx.fail("a length of %" PRIu64 " reads back as %" PRIu64, v, h.get_length(b + 8));
            if (h.get_lenlen(b + 8) != h.calculate_lenlen(v)) cx.fail("length %" PRIu64 ": stored length-of-length is %u, computed %u", v, h.get_lenlen(b + 8), h.calculate_lenlen(v));
            for (int k = 0; k < 48; k++) if ((k < 8 || k > 8 + h.calculate_lenlen(v)) && b[k] != f[i & 3]) cx.fail("storing a length of %" PRIu64 " changes byte %d beside it", v, k - 8);
            memset(b, f[i & 3], 48); h.set_pointer(b + 8, v); if (h.get_pointer(b + 8) != v) cx.fail("a block pointer of %" PRIu64 " reads back as %" PRIu64, v, h.get_pointer(b + 8));
            if (h.get_length(b + 8) != 2) cx.fail("a block pointer does not read as one");
            for (int k = 0; k < 48; k++) if ((k < 8 || k > 17) && b[k] != f[i & 3]) cx.fail("storing a block pointer changes byte %d beside it", k - 8);
            cx.state(mc::hash(v, i & 3)); cx.transitions() += 2; cx.traces()++; }, [=](uint64_t i) { return "value " + std::to_string(vs[i / 4]); });
    }
    ex.assumptions = {"strings have length 3 or more (the dictionary's own block pointers are records of length 2)", "names up to n/2+1 for a dictionary built for inputs of n bytes"};
    return ex.main();
}

// C15: the block queue against std::deque, over all operation histories in the bounds.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "queue.hpp"
#include <deque>

// bulk operations sized around the block size, single ones for the seams
static const int OPS[] = {+1, +1023, +1024, +1025, 1000001, 1001023, 1001024, 1001025, -1, -1023, -1024, -1000000};
static const char *opname(int o) { static char b[32]; if (o == -1000000) return "drain"; if (o < 0) snprintf(b, 32, "remove*%d", -o); else if (o > 1000000) snprintf(b, 32, "front*%d", o - 1000000); else snprintf(b, 32, "back*%d", o); return b; }

int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C15"; ex.args(argc, argv); bool th = ex.thorough; ex.counters.push_back("element_operations");
    ex.worker_init = []() { alloc::init(256ULL << 20); };
    auto run = [](const std::vector<int> &ops, unsigned w, int fill, bool drain, mc::Cx &cx) {
        alloc::reset(); alloc::fill = fill; uint64_t M = (w == 64 ? ~0ull : (1ull << w) - 1), cnt = 0; flbwt::Queue *q; { alloc::On on; q = new flbwt::Queue(w); }
        static std::deque<uint64_t> d; d.clear(); uint64_t st = 0, eops = 0;
        auto val = [&]() { ++cnt; return cnt % 5 == 0 ? M : cnt % 7 == 0 ? 0 : (cnt * 0x9e3779b97f4a7c15ull >> 7) & M; };
        auto step = [&](int o) {
            int k = o == -1000000 ? (int)d.size() : o < 0 ? std::min<int>(-o, d.size()) : o > 1000000 ? o - 1000000 : o;
            for (int j = 0; j < k; j++)
            {
                if (o < 0) { uint64_t g; { alloc::On on; g = (uint64_t)q->dequeue(); } if (g != d.front()) cx.fail("removal returns 0x%" PRIx64 ", a list returns 0x%" PRIx64 " (%zu elements before, width %u)", g, d.front(), d.size(), w); d.pop_front(); }
                else if (o > 1000000) { uint64_t v = val(); { alloc::On on; q->enqueue_l(v); } d.push_front(v); }
                else { uint64_t v = val(); { alloc::On on; q->enqueue(v); } d.push_back(v); }
                if (q->is_empty() != d.empty()) cx.fail("reports %s with %zu elements", q->is_empty() ? "empty" : "not empty", d.size());
                eops++;
            }
            st = mc::hash(st, o + 3000000); cx.state(mc::hash(st, w)); cx.transitions()++;
        };
        if (!q->is_empty()) cx.fail("a new queue is not empty");
        for (int o : ops) step(o);
        if (drain) { step(-1000000); step(1); step(1000001); step(-1000000); }
        cx.outcome(d.size());
        { alloc::On on; delete q; }
        if (alloc::err[0]) cx.fail("%s", alloc::err); if (alloc::live) cx.fail("destroying a queue with %zu elements leaves %" PRIu64 " blocks allocated", d.size(), alloc::live);
        cx.ctr("element_operations") += eops; cx.traces()++;
    };
    const uint64_t K = sizeof OPS / sizeof *OPS; unsigned depth = th ? 6 : 5;
    auto dec = [=](uint64_t i, unsigned depth) { std::vector<int> o; unsigned k = 1; while (i >= inputs::ipow(K, k)) { i -= inputs::ipow(K, k); k++; } (void)depth; for (unsigned j = 0; j < k; j++) { o.push_back(OPS[i % K]); i /= K; } return o; };
    auto show = [=](const std::vector<int> &o) { std::string s; for (int x : o) s += std::string(opname(x)) + " "; return s; };
    auto total = [=](unsigned d) { uint64_t t = 0; for (unsigned k = 1; k <= d; k++) t += inputs::ipow(K, k); return t; };
    auto valid = [](const std::vector<int> &o) { long n = 0; for (int x : o) { if (x < 0) { if (n == 0) return false; n = x == -1000000 ? 0 : std::max<long>(0, n + x); } else n += x > 1000000 ? x - 1000000 : x; } return true; };
    for (unsigned w : th ? std::vector<unsigned>{1, 13, 31, 32, 33, 63} : std::vector<unsigned>{13, 33, 63})
        ex.add("histories-w" + std::to_string(w), "every sequence of 1.." + std::to_string(depth) + " of the 12 operations back*{1,1023,1024,1025}, front*{..}, remove*{1,1023,1024}, drain (removals of an empty queue left out), then destroyed, or drained, reused and destroyed", total(depth) * 2,
               [=](uint64_t i, mc::Cx &cx) { auto o = dec(i / 2, depth); if (valid(o)) run(o, w, i & 1 ? 0xFF : 0x00, i & 1, cx); }, [=](uint64_t i) { return "width " + std::to_string(w) + ": " + show(dec(i / 2, depth)) + (i & 1 ? "drain, reuse, destroy" : "destroy"); });
    ex.add("widths", "every width 1..63 x every sequence of 1..3 operations", 63 * total(3), [=](uint64_t i, mc::Cx &cx) { auto o = dec(i / 63, 3); if (valid(o)) run(o, 1 + i % 63, 0x5A, true, cx); }, [=](uint64_t i) { return "width " + std::to_string(1 + i % 63) + ": " + show(dec(i / 63, 3)); });
    // single operations only, deep, and phase-shifted: k removed from a queue of n so that every offset of both ends occurs
    uint64_t D = th ? 13 : 11;
    ex.add("single", "every sequence of " + std::to_string(D) + " single operations back / front / remove, from an empty queue and from queues of 1, 1023, 1024, 2047 elements of which 0, 1 or 1023 were removed", inputs::ipow(3, D) * 7, [=](uint64_t i, mc::Cx &cx) {
        static const int pre[7][2] = {{0, 0}, {1, 0}, {1023, 0}, {1024, 0}, {1024, -1023}, {2047, -1023}, {1000000 + 1023, 0}}; std::vector<int> o; mc::Radix r(i); unsigned p = r.pick(7); if (pre[p][0]) o.push_back(pre[p][0]); if (pre[p][1]) o.push_back(pre[p][1]);
        for (unsigned k = 0; k < D; k++) { unsigned c = r.pick(3); o.push_back(c == 0 ? 1 : c == 1 ? 1000001 : -1); }
        if (valid(o)) run(o, 20, 0xFF, true, cx); }, [=](uint64_t i) { mc::Radix r(i); std::string s = "start " + std::to_string(r.pick(7)) + ": "; for (unsigned k = 0; k < D; k++) s += "BFR"[r.pick(3)]; return s; });
    ex.add("offsets", "n inserted (all at the back / all in front / alternating), k removed, m more inserted at either end, drained: n, k over every offset of a block in steps, m around it", 3 * 2 * 52 * 52 * 4, [=](uint64_t i, mc::Cx &cx) {
        mc::Radix r(i); unsigned m3 = r.pick(3), e = r.pick(2), a = r.pick(52), b = r.pick(52), m = ((unsigned[]){1, 1023, 1024, 2049})[r.pick(4)]; auto f = [](unsigned x) { return x < 26 ? x * 41 : 1024 + (x - 26) * 40 - 1; }; std::vector<int> o;
        unsigned n = 1 + f(a), k = f(b); if (m3 == 0) o.push_back(n); else if (m3 == 1) o.push_back(1000000 + n); else { o.push_back(n / 2 + 1); o.push_back(1000000 + n / 2 + 1); }
        if (k) o.push_back(-(int)k); o.push_back(e ? 1000000 + m : m); run(o, 45, 0x00, true, cx); }, [=](uint64_t i) { return "case " + std::to_string(i); });
    ex.add("long", "queues of up to 3 million elements (3000 blocks), inserted at either end, half removed, refilled", 8, [=](uint64_t i, mc::Cx &cx) { std::vector<int> o; int n = 900000; if (i & 1) { o = {n, n, n}; } else { o = {1000000 + n, 1000000 + n, n}; } if (i & 2) o.push_back(-n); if (i & 4) { o.push_back(-n); o.push_back(n); o.push_back(1000000 + 5); } run(o, 30, 0xFF, true, cx); }, [=](uint64_t i) { return "case " + std::to_string(i); }, 300, 1);
    ex.add("many-blocks", "70000 blocks of the queue, inserted at either end, then taken out / destroyed", 2 * 2, [=](uint64_t i, mc::Cx &cx) {
        alloc::reset(); alloc::fill = 0xFF; const uint64_t n = 70000ull * 1024 + 3; auto val = [](uint64_t k) { return (k * 0x9e3779b97f4a7c15ull >> 40) & 7; }; flbwt::Queue *q;
        {
            alloc::On on; q = new flbwt::Queue(3); for (uint64_t k = 0; k < n; k++) if (i & 1) q->enqueue_l(val(k)); else q->enqueue(val(k));
            if (i & 2) for (uint64_t k = 0; k < n; k++) { if (q->is_empty()) cx.fail("reports empty after %" PRIu64 " of %" PRIu64 " removals", k, n); uint64_t g = q->dequeue(), v = val(i & 1 ? n - 1 - k : k); if (g != v) cx.fail("removal %" PRIu64 " of %" PRIu64 " returns %" PRIu64 ", a list returns %" PRIu64, k, n, g, v); }
            if (q->is_empty() != !!(i & 2)) cx.fail("reports %s", q->is_empty() ? "empty" : "not empty");
            delete q;
        }
        if (alloc::err[0]) cx.fail("%s", alloc::err); if (alloc::live) cx.fail("destroying the queue leaves %" PRIu64 " blocks allocated", alloc::live);
        cx.state(mc::hash(n, i)); cx.transitions() += n; cx.ctr("element_operations") += n; cx.traces()++; }, [=](uint64_t i) { return std::string(i & 1 ? "front" : "back") + (i & 2 ? ", taken out" : ", destroyed"); }, 300, 1);
    ex.assumptions = {"removal from an empty queue is not called (nothing is promised for it)"};
    return ex.main();
}

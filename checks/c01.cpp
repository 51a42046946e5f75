// C01: bwt_string against two independent oracles on every input of the spaces.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "big.hpp"
#include "ref.hpp"
#include "lib_call.hpp"

int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C01"; ex.args(argc, argv); ex.counters.push_back("bytes_transformed"); ex.state_bits = ex.thorough ? 26 : 24;
    ex.worker_init = [&]() { alloc::init(ex.thorough ? (3ULL << 30) : (1ULL << 30)); };
    std::vector<inputs::Space> sp = inputs::small(ex.thorough ? 2 : 1);
    for (auto &s : inputs::structured(ex.thorough ? 2 : 1)) sp.push_back(s);
    if (ex.thorough) for (auto &s : inputs::huge()) sp.push_back(s);
    // natural sizes beyond 2^31 and 2^32: first, since they are single long cases
    struct B { big::Family f; uint64_t k; }; const uint64_t G4 = 1ULL << 32, G2 = 1ULL << 31;
    auto bs = std::make_shared<std::vector<B>>(std::vector<B>{{{{'b'}, {'a'}, {'c'}}, G4 + 7}}); std::string dir = ex.workdir;
    if (ex.thorough) for (B b : std::vector<B>{{{{}, {'a'}, {}}, G2 + 3}, {{{}, {255}, {0, 0}}, G4 + 1}, {{{'b', 'a'}, {'c'}, {'b', 'a', 'c', 'a'}}, G4 - 2}, {{{'c'}, {'b'}, {'a', 'b'}}, G4 + 5}, {{{'a'}, {'b', 'a'}, {}}, G2 + 5}, {{{}, {'a', 'b'}, {'c'}}, G2 - 3}, {{{}, {'c', 'a', 'b'}, {'a'}}, (G4 + 100) / 3}, {{{'x'}, {3, 1, 2, 1}, {'y'}}, G2 / 2 + 9}}) bs->push_back(b);
    ex.add("gigabytes", "u w^k v with more than 2^31 and 2^32 bytes (five length bytes, positions and rows beyond 32 bits without the hook), rows known by run lengths", bs->size(),
           [=](uint64_t i, mc::Cx &cx) {
               const B &b = (*bs)[i]; big::Alone one(dir); big::Form f = big::form(b.f, b.k); uint8_t *T = (uint8_t *)malloc(f.n + 1); if (!T) { perror("malloc"); _exit(2); }
               big::fill(b.f, b.k, T); flbwt::BWT_result *r = nullptr;
               try { r = flbwt::bwt_string(T, f.n, false); } catch (std::exception &x) { cx.fail("threw %s", x.what()); }
               free(T); if (!r || !r->BWT) cx.fail("returned no result");
               if (r->last != f.last) cx.fail("marker index is %" PRIu64 ", must be %" PRIu64, r->last, f.last);
               std::string e = big::compare(f, r->BWT, true); if (!e.empty()) cx.fail("%s", e.c_str());
               delete[] r->BWT; free(r); cx.state(mc::hash(i, f.n)); cx.outcome(f.last); cx.transitions() += f.n + 1; cx.traces()++; cx.ctr("bytes_transformed") += f.n; },
           [=](uint64_t i) { return big::show((*bs)[i].f, (*bs)[i].k); }, ex.thorough ? 7200 : 450, 1);
    for (auto &s : sp)
        ex.add(s.name, s.rule, s.size, [s](uint64_t i, mc::Cx &cx) {
            static mc::Bytes T; s.gen(i, T); size_t n = T.size(); T.push_back(0);
            alloc::reset(); alloc::fill = (i & 1) ? 0xFF : 0x5A; alloc::realloc_mode = n > 3000 ? 1 : 2;
            std::string e = lib::run_and_check(T.data(), n, cx);
            if (!e.empty()) cx.fail("%s", e.c_str());
            cx.state(mc::hash(T.data(), n)); cx.transitions() += n + 1; cx.traces()++; cx.ctr("bytes_transformed") += n;
        }, [s](uint64_t i) { return inputs::show(s, i); }, s.timeout, s.chunk);
    ex.assumptions = {"the string is followed by one zero byte, as bwt_file and the tests pass it"};
    return ex.main();
}

// C17: decomposition, names and shortened string against a naive decomposition.
#define MC_ALLOC_IMPL
#include "alloc.hpp"
#include "inputs.hpp"
#include "ref.hpp"
#include "flbwt.hpp"
#include <exception>
#include <map>
typedef mc::Bytes Bytes;

// order of two pieces: induced order, where one is a proper prefix of the other the longer is smaller
static bool less_piece(const uint8_t *a, size_t la, const uint8_t *b, size_t lb)
{
    int m = memcmp(a, b, std::min(la, lb)); return m ? m < 0 : la > lb;
}
static void check(uint8_t *T, size_t n, mc::Cx &cx)
{
    // naive: T has a zero byte behind its end, which ends the last piece
    std::vector<size_t> l = ref::lms(T, n); size_t ns = l.size();
    std::map<Bytes, int> set; std::vector<std::pair<size_t, size_t>> pc; // (start, length)
    for (size_t i = 0; i < ns; i++) { size_t e = i + 1 < ns ? l[i + 1] : n; pc.push_back({l[i], e - l[i] + 1}); set[Bytes(T + l[i], T + e + 1)] = 1; }
    size_t head = ns ? l[0] : n, nu = set.size();
    flbwt::Container *c; uint8_t **S; flbwt::PackedArray *T1;
    { alloc::On on; c = flbwt::extract_LMS_strings(T, n); }
    if (c->num_of_substrings != ns) cx.fail("finds %" PRIu64 " leftmost-S positions, there are %zu", c->num_of_substrings, ns);
    if (c->num_of_unique_substrings != nu) cx.fail("finds %" PRIu64 " distinct pieces, there are %zu", c->num_of_unique_substrings, nu);
    if (c->head_string_end != head) cx.fail("the leading piece ends at %" PRIu64 ", must be %zu", c->head_string_end, head);
    { alloc::On on; S = flbwt::sort_LMS_strings(T, c); }
    flbwt::HashTable *h = c->hashtable;
    auto piece = [&](uint64_t k, const uint8_t *&p, uint64_t &len) {
        len = h->get_length(S[k]); p = h->get_first_character_pointer(S[k]);
        if (p < h->buf || len > h->bufsize || p + len > h->buf + h->bufsize) cx.fail("the record of name %" PRIu64 " lies outside the dictionary", k); };
    const uint8_t *p, *q = nullptr; uint64_t len, ql = 0;
    for (uint64_t k = 1; k <= nu; k++)
    {
        piece(k, p, len);
        if (k > 1 && !less_piece(q, ql, p, len)) cx.fail("pieces %" PRIu64 " and %" PRIu64 " are not in the induced order", k - 1, k);
        if (!set.count(Bytes(p, p + len))) cx.fail("the piece with name %" PRIu64 " does not occur in the input", k);
        if (h->get_name(S[k]) != k) cx.fail("the piece at rank %" PRIu64 " has the name %" PRIu64, k, h->get_name(S[k]));
        q = p; ql = len;
    }
    piece(nu + 1, p, len);
    if (len != head + 1 || memcmp(p, T, head + 1)) cx.fail("the record of the leading piece is not the leading piece (length %" PRIu64 ", must be %zu)", len, head + 1);
    { alloc::On on; T1 = flbwt::create_shortened_string(T, n, c); }
    if (T1->get_length() != ns + 2) cx.fail("the shortened string has %" PRIu64 " entries, must have %zu", T1->get_length(), ns + 2);
    if (T1->get_value(0) != nu + 1) cx.fail("the shortened string starts with %" PRIu64 ", the name of the leading piece is %zu", T1->get_value(0), nu + 1);
    if (T1->get_value(ns + 1) != 0) cx.fail("the shortened string does not end with 0");
    Bytes back(T, T + head);
    for (size_t i = 0; i < ns; i++)
    {
        uint64_t v = T1->get_value(i + 1); if (v < 1 || v > nu) cx.fail("entry %zu of the shortened string is %" PRIu64 ", names are 1..%zu", i + 1, v, nu);
        piece(v, p, len);
        if (len != pc[i].second || memcmp(p, T + pc[i].first, len)) cx.fail("entry %zu of the shortened string names another piece than the one at position %zu", i + 1, pc[i].first);
        back.insert(back.end(), p, p + len - 1);
    }
    if (back.size() != n || memcmp(back.data(), T, n)) cx.fail("the input cannot be rebuilt from the shortened string");
    cx.outcome(mc::hash(ns, nu * 1000003 + head));
    { alloc::On on; free(S); delete T1; delete c; }
    cx.transitions() += ns + nu + 2; cx.traces()++;
}
int main(int argc, char **argv)
{
    mc::Explorer ex; ex.prop = "C17"; ex.args(argc, argv); ex.state_bits = ex.thorough ? 26 : 23; int lv = ex.thorough ? 2 : 1;
    ex.worker_init = [&]() { alloc::init(ex.thorough ? (3ULL << 30) : (1ULL << 30)); };
    std::vector<inputs::Space> sp = inputs::small(lv);
    for (auto &s : inputs::structured(lv)) sp.push_back(s);
    if (ex.thorough) sp.push_back(inputs::huge()[0]);
    for (auto &s : sp)
        ex.add(s.name, s.rule, s.size, [s](uint64_t i, mc::Cx &cx) {
            static mc::Bytes T; s.gen(i, T); size_t n = T.size(); T.push_back(0);
            alloc::reset(); alloc::fill = (i & 1) ? 0xFF : 0x5A; alloc::realloc_mode = n > 3000 ? 1 : 2;
            check(T.data(), n, cx); cx.state(mc::hash(T.data(), n));
        }, [s](uint64_t i) { return inputs::show(s, i); }, s.timeout, s.chunk);
    ex.assumptions = {"the string is followed by one zero byte", "names are read through the dictionary's public record accessors"};
    return ex.main();
}

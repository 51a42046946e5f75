// Calls into the library under the allocator model.
#pragma once
#include "alloc.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include "flbwt.hpp"
#include <exception>

namespace lib {
// transform T (n bytes + zero byte, not owned by the arena), compare with the oracles; "" if right
inline std::string run_and_check(uint8_t *T, size_t n, mc::Cx &cx, size_t naive = 64)
{
    flbwt::BWT_result *r = nullptr; std::string e;
    try { alloc::On on; r = flbwt::bwt_string(T, n, false); }
    catch (std::exception &x) { return std::string("threw ") + x.what(); }
    if (!r || !r->BWT) return "returned no result";
    e = ref::check(T, n, r->BWT, r->last, naive);
    if (e.empty()) cx.outcome(mc::hash(r->BWT, r->last, r->last));
    delete[] r->BWT; free(r);
    return e;
}
}

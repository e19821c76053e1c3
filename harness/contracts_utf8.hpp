// Contracts of the UTF-8 layer used by the tree-level harnesses.  They are discharged for the real code by C22 and C24.
#pragma once
#ifndef VH_NATIVE
#    include <arg_router/utility/utf8.hpp>
namespace vhc
{
// A grapheme cluster iterator over [s, e) standing at p denotes a cluster that depends only on (s, p, e), is not empty, lies
// within [p, e), and is a single byte when it and the following byte are printable ASCII.
struct gc_state { std::uint64_t cur; std::string_view str; const char* start; };
using gci = arg_router::utility::utf8::iterator;
static_assert(sizeof(gc_state) <= sizeof(gci));
inline void gc_update(gc_state* s)
{
    s->cur = 0;
    const auto rem = s->str.size();
    if (rem == 0) return;
    const auto p = s->str.data();
    const auto n = __v_uf("gc", vh::max_text, 3, s->start, p, rem);
    __v_assume(n >= 1); __v_assume(n <= rem);
    const unsigned char b0 = p[0], b1 = p[__v_ite(rem > 1, 1, 0)];
    const auto pr = [](unsigned char b) { return __v_and(b >= 0x20, b < 0x7f); };
    __v_assume(__v_or(__v_not(__v_and(pr(b0), pr(b1))), n == 1));
    s->cur = n;
}
VH_CONTRACT("^arg_router::utility::utf8::iterator::iterator(std::basic_string_view")
void gc_ctor(gc_state* s, std::string_view str) { s->str = str; s->start = str.data(); gc_update(s); }
VH_CONTRACT("^arg_router::utility::utf8::iterator::iterator()$")
void gc_ctor0(gc_state* s) { s->str = {}; s->start = nullptr; s->cur = 0; }
VH_CONTRACT("^arg_router::utility::utf8::iterator::operator++()$")
gc_state* gc_inc(gc_state* s) { s->str = {s->str.data() + s->cur, s->str.size() - s->cur}; gc_update(s); return s; }
VH_CONTRACT("^arg_router::utility::utf8::iterator::operator*() const$")
std::string_view gc_deref(const gc_state* s) { return {s->str.data(), s->cur}; }
VH_CONTRACT("^arg_router::utility::utf8::iterator::operator==(arg_router::utility::utf8::iterator) const$")
bool gc_eq(const gc_state* s, gci o)
{
    const auto& q = (const gc_state&)o;
    if (s->str.empty() || q.str.empty()) return s->str.empty() && q.str.empty();
    return (s->str.data() == q.str.data()) && (s->str.size() == q.str.size());
}
#    ifndef VH_REAL_DISTANCE
// The edit distance depends only on the two texts (at tree level only its being the same for the same texts matters).
VH_CONTRACT("arg_router::utility::utf8::levenshtein_distance(std::basic_string_view")
std::size_t lev(std::string_view a, std::string_view b) { return __v_uf("lev", 1ull << 32, 4, a.data(), a.size(), b.data(), b.size()); }
#    endif
// Which nodes are suggested does not matter to the properties that use this contract (it does to C21/C22, which do not).
#    if !defined(VH_REAL_SUGGESTION) && !defined(VH_REAL_DISTANCE)
VH_CONTRACT("arg_router::utility::utf8::closest_matching_child_node<")
tokens_t suggest(const void*, token_type) { return tokens_t(1, token_type{prefix_type::none, "suggestion"}); }
#    endif
}  // namespace vhc
#endif

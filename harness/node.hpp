// A single node offered an argument list (tree_node pre-parse contract).
#pragma once
#include "tree.hpp"

namespace vh
{
// t names a node with this long/short name
inline bool is_long(const token_type& t, std::string_view dashed)
{
    if (t.prefix == prefix_type::none) return same(t.name, dashed);
    return __v_and(t.prefix == prefix_type::long_, same(t.name, dashed.substr(2)));
}
inline bool is_short(const token_type& t, std::string_view dashed)
{
    if (t.prefix == prefix_type::none) return same(t.name, dashed);
    return __v_and(t.prefix == prefix_type::short_, same(t.name, dashed.substr(1)));
}
// bitwise same token (same view of the same text)
inline bool identical(const token_type& a, const token_type& b)
{
    return __v_and(a.prefix == b.prefix, __v_and(a.name.data() == b.name.data(), a.name.size() == b.name.size()));
}
struct offered {
    tokens_t before, after, got;   // list before and after, tokens the node took
    bool matched = false, threw = false;
    ar::error_code ec{};
    tokens_t ec_tokens;
    std::size_t n() const { return before.size(); }
    // the list is bitwise what it was
    void untouched(const char* label) const
    {
        __v_assert(after.size() == before.size(), label);
        forall("k", before.size(), [&](std::size_t k) { __v_assert(identical(after[k], before[k]), label); });
    }
    // the tokens taken are before[from, from + n)
    void took(std::size_t from, std::size_t n, const char* label) const
    {
        __v_assert(got.size() == n, label);
        forall("k", n, [&](std::size_t k) { __v_assert(identical(got[k], before[from + k]), label); });
    }
    // what is left is before[from, end)
    void left(std::size_t from, const char* label) const
    {
        __v_assert(after.size() == before.size() - from, label);
        forall("k", before.size() - from, [&](std::size_t k) { __v_assert(identical(after[k], before[from + k]), label); });
    }
};
// offer the arbitrary list to the node
template <typename Node, typename... Parents>
void offer_list(offered& o, const Node& node, const Parents&... parents)
{
    o.after = o.before;
    try {
        auto r = node.pre_parse(ar::parsing::pre_parse_data{o.after}, parents...);
        o.matched = r.has_value();
        if (r) o.got = r->tokens();
    } catch (ar::multi_lang_exception& e) {
        o.threw = true;
        o.ec = e.ec();
        o.ec_tokens = e.tokens();
    }
}
template <typename Node, typename... Parents>
void offer(offered& o, const Node& node, const Parents&... parents)
{
    __v_tokens("args", max_tokens, &o.before);
    offer_list(o, node, parents...);
}
}  // namespace vh

// C01: classification of argument strings by prefix; all ways of handing arguments over are the same.
#include "tree.hpp"
VH_DICT("--", "-", "--hello", "-h", "hello", "---x", "-x-", "--h-", "");

// get_token_type: every text, every length
// @entry classify
VH_ENTRY(classify)
{
    const auto s = vh::bytes("s");
    const auto t = ar::parsing::get_token_type(s);
    const bool lng = s.size() >= 2 && s[0] == '-' && s[1] == '-';
    const bool sht = !lng && s.size() >= 1 && s[0] == '-';
    if (lng) VH_COVER("long"); else if (sht) VH_COVER("short"); else VH_COVER("none");
    VH_ASSERT(t.prefix == (lng ? prefix_type::long_ : sht ? prefix_type::short_ : prefix_type::none), "class is decided by the prefix, the long one first");
    VH_ASSERT(t.name.size() == s.size() - (lng ? 2 : sht ? 1 : 0), "name is the rest: length");
    VH_ASSERT(t.name.data() == s.data() + (lng ? 2 : sht ? 1 : 0), "name is the rest: the bytes after the prefix");
}

// to_string(get_token_type(s)) == s
// @entry render
VH_ENTRY(render)
{
    const auto s = vh::bytes("s");
    const auto r = ar::parsing::to_string(ar::parsing::get_token_type(s));
    VH_COVER("rendered");
    VH_ASSERT(r.size() == s.size(), "rendering gives back the length");
    vh::forall("i", s.size(), [&](auto i) { VH_ASSERT(r[i] == s[i], "rendering gives back every byte"); });
}

// token equality is equality of prefix and bytes
// @entry equality
VH_ENTRY(equality)
{
    tokens_t a;
    __v_tokens("a", vh::max_tokens, &a);
    __v_assume(a.size() >= 2);
    VH_COVER("two tokens");
    VH_ASSERT((a[0] == a[1]) == (a[0].prefix == a[1].prefix && vh::same(a[0].name, a[1].name)), "tokens are equal iff prefix and name are");
    VH_ASSERT((a[0] != a[1]) == !(a[0] == a[1]), "inequality is the negation");
}

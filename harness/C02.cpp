// C02: the adapter is the concatenation of its two lists.
#include "tree.hpp"
VH_DICT_TOKENS("a", "b", "--c", "-d", "");
using adapter = ar::parsing::dynamic_token_adapter;

static bool eq(const token_type& a, const token_type& b)
{
    return __v_and(a.prefix == b.prefix, __v_and(a.name.data() == b.name.data(), a.name.size() == b.name.size()));
}
// the lists before the operation under test
struct lists {
    tokens_t p, u, p0, u0;
    lists()
    {
        __v_tokens("processed", vh::max_tokens, &p);
        __v_tokens("unprocessed", vh::max_tokens, &u);
        p0 = p; u0 = u;
    }
    std::size_t n() const { return p0.size() + u0.size(); }
    const token_type& at(std::size_t i) const { return i < p0.size() ? p0[i] : u0[i - p0.size()]; }
    const token_type& now(std::size_t i) const { return i < p.size() ? p[i] : u[i - p.size()]; }
    std::size_t index(const char* name, bool end)
    {
        const auto i = vh::any<std::size_t>(name, 0, 1ull << 40);
        __v_assume(end ? i <= n() : i < n());
        return i;
    }
};

// @entry view
VH_ENTRY(view)
{
    lists l;
    adapter a{l.p, l.u};
    VH_ASSERT(a.size() == l.n(), "size is the sum of both sizes");
    VH_ASSERT(a.empty() == (l.n() == 0), "empty iff both are");
    VH_ASSERT(&a.processed() == &l.p && &a.unprocessed() == &l.u, "the lists are the ones given");
    if (l.n() == 0) {
        VH_COVER("empty");
        VH_ASSERT(a.begin() == a.end(), "empty range");
        return;
    }
    const auto i = l.index("i", false);
    VH_COVER("element");
    const auto it = a.begin() + i;
    VH_ASSERT(eq(*it, l.at(i)), "element access");
    VH_ASSERT(eq(a.begin()[i], l.at(i)), "subscript");
    VH_ASSERT(it->name.data() == l.at(i).name.data(), "member access");
    VH_ASSERT(it != a.end(), "before the end");
    VH_ASSERT((a.begin() + l.n()) == a.end(), "size steps reach the end");
    auto nx = it;
    auto old = nx++;
    VH_ASSERT(old == it, "post-increment returns the old position");
    VH_ASSERT((nx == a.end()) == (i + 1 == l.n()), "the step after the last element is the end");
    if (i + 1 < l.n()) { VH_COVER("next"); VH_ASSERT(eq(*nx, l.at(i + 1)), "increment moves to the next element"); auto pr = nx; --pr; VH_ASSERT(eq(*pr, l.at(i)), "decrement undoes increment"); VH_ASSERT(eq(*(nx - 1), l.at(i)), "subtraction"); VH_ASSERT(it < nx && nx > it && it <= nx && nx >= it && !(nx < it), "order follows positions"); VH_ASSERT(nx != it, "different positions differ"); }
    const auto j = l.index("j", false);
    VH_ASSERT((a.begin() + j == it) == (i == j), "iterators are equal iff positions are");
}
// @entry transfer
VH_ENTRY(transfer)
{
    lists l;
    adapter a{l.p, l.u};
    const auto i = l.index("i", true);
    a.transfer(a.begin() + i);
    const auto upto = i == l.n() ? l.n() : i + 1;
    VH_ASSERT(l.p.size() == (upto < l.p0.size() ? l.p0.size() : upto), "everything up to the element is processed, nothing else");
    VH_ASSERT(l.p.size() + l.u.size() == l.n(), "nothing lost or duplicated");
    if (upto > l.p0.size()) VH_COVER("moved"); else VH_COVER("already processed");
    vh::forall("k", l.n(), [&](auto k) { VH_ASSERT(eq(l.now(k), l.at(k)), "the sequence is unchanged"); });
}
// @entry insert
VH_ENTRY(insert)
{
    lists l;
    tokens_t v;
    __v_tokens("value", 1, &v);
    __v_assume(v.size() == 1);
    adapter a{l.p, l.u};
    const auto i = l.index("i", true);
    const auto r = a.insert(i == l.n() ? a.end() : a.begin() + i, v[0]);
    if (i == l.n()) VH_COVER("at the end"); else VH_COVER("inside");
    VH_ASSERT(a.size() == l.n() + 1, "one more element");
    VH_ASSERT(eq(*r, v[0]), "the returned iterator denotes the new element");
    VH_ASSERT(l.p.size() >= i + 1, "the new element is processed");
    vh::forall("k", l.n() + 1, [&](auto k) { VH_ASSERT(eq(l.now(k), k < i ? l.at(k) : k == i ? v[0] : l.at(k - 1)), "insertion acts on the concatenation"); });
}
// @entry insert_range
VH_ENTRY(insert_range)
{
    lists l;
    tokens_t v;
    __v_tokens("values", vh::max_tokens, &v);
    adapter a{l.p, l.u};
    const auto i = l.index("i", true);
    a.insert(i == l.n() ? a.end() : a.begin() + i, v.begin(), v.end());
    if (i == l.n()) VH_COVER("at the end"); else VH_COVER("inside");
    const auto m = v.size();
    VH_ASSERT(a.size() == l.n() + m, "as many more elements");
    vh::forall("k", l.n() + m, [&](auto k) { VH_ASSERT(eq(l.now(k), k < i ? l.at(k) : k < i + m ? v[k - i] : l.at(k - m)), "insertion acts on the concatenation"); });
}
// @entry erase
VH_ENTRY(erase)
{
    lists l;
    adapter a{l.p, l.u};
    const auto i = l.index("i", true);
    a.erase(a.begin() + i);
    if (i == l.n()) { VH_COVER("end is ignored"); VH_ASSERT(a.size() == l.n(), "erasing the end does nothing"); }
    else { VH_COVER("erased"); VH_ASSERT(a.size() + 1 == l.n(), "one element less"); }
    vh::forall("k", a.size(), [&](auto k) { VH_ASSERT(eq(l.now(k), k < i ? l.at(k) : l.at(k + 1)), "erasure acts on the concatenation"); });
    VH_ASSERT(l.p.size() == l.p0.size() - (i < l.p0.size() ? 1 : 0), "no element changes lists");
}
// @entry set
VH_ENTRY(set)
{
    lists l;
    tokens_t v;
    __v_tokens("value", 1, &v);
    __v_assume(v.size() == 1);
    adapter a{l.p, l.u};
    const auto i = l.index("i", false);
    (a.begin() + i).set(v[0]);
    VH_COVER("set");
    VH_ASSERT(a.size() == l.n(), "same size");
    VH_ASSERT(l.p.size() >= i + 1, "the replaced element is processed");
    vh::forall("k", l.n(), [&](auto k) { VH_ASSERT(eq(l.now(k), k == i ? v[0] : l.at(k)), "replacement acts on the concatenation"); });
}

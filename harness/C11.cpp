// C11: the end marker ends a value list and is consumed.
#include "node.hpp"
VH_DICT_TOKENS("--hello", "hello", "a", "b", "-c", "--", "", "---", ":");

// Any list offered to a node whose values end at the marker; label = number of label tokens, mx = most values allowed
template <typename Node>
static void marked(const Node& node, std::size_t label, std::string_view marker, std::size_t mn, std::size_t mx)
{
    vh::offered o;
    __v_args("args", vh::max_tokens, &o.before);   // as typed: prefix-less full text
    vh::offer_list(o, node);
    if (o.n() == 0) return;
    if (label && !vh::same(o.before[0].name, "--hello")) {
        VH_ASSERT(!o.matched && !o.threw, "a list that does not name the node is not its business");
        o.untouched("not matched: list untouched");
        return;
    }
    std::size_t m = label;   // the first marker, or the end
    while (m < o.n() && !vh::same(o.before[m].name, marker)) ++m;
    const auto values = m - label;
    if (values < mn || values > mx) {
        VH_ASSERT(!o.matched && o.threw, "a wrong number of values is an error");
        VH_ASSERT(o.ec == (values < mn ? ar::error_code::minimum_count_not_reached : ar::error_code::maximum_count_exceeded), "the count error");
        return;
    }
    VH_ASSERT(o.matched && !o.threw, "accepted");
    o.took(label, values, "the tokens before the first marker are the values");
    o.left(m < o.n() ? m + 1 : m, "the marker is consumed and the tokens after it are left in order");
}
// @entry named unroll=6 unroll_t=16
VH_ENTRY(named)
{
    marked(ar::multi_arg<ar::vector<std::string_view>>("hello"_S, arp::token_end_marker_t{"--"_S}), 1, "--", 1, ~std::size_t{0});
    VH_COVER("reached");
}
// @entry named_max unroll=6 unroll_t=16
VH_ENTRY(named_max)
{
    marked(ar::multi_arg<ar::vector<std::string_view>>("hello"_S, arp::min_max_count<1, 3>, arp::token_end_marker_t{":"_S}), 1, ":", 1, 3);
    VH_COVER("reached");
}
// @entry positional unroll=6 unroll_t=16
VH_ENTRY(positional)
{
    marked(ar::positional_arg<ar::vector<std::string_view>>("pos"_S, arp::token_end_marker_t{"--"_S}), 0, "--", 0, ~std::size_t{0});
    VH_COVER("reached");
}
// @entry positional_max unroll=6 unroll_t=16
VH_ENTRY(positional_max)
{
    marked(ar::positional_arg<ar::vector<std::string_view>>("pos"_S, arp::min_max_count<0, 3>, arp::token_end_marker_t{"--"_S}), 0, "--", 0, 3);
    VH_COVER("reached");
}
// two positional lists separated by the marker
static int calls;
static std::size_t n1, n2;
static std::string_view v1[3], v2[3];
// @entry routed unroll=3 unroll_t=5 budget=60
VH_ENTRY(routed)
{
    calls = 0; n1 = n2 = 0; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::positional_arg<ar::vector<std::string_view>>("one"_S, arp::default_value{ar::vector<std::string_view>{}}, arp::token_end_marker_t{"--"_S}, arp::min_max_count<0, 2>),
                 ar::positional_arg<ar::vector<std::string_view>>("two"_S, arp::required, arp::min_max_count<1, 2>),
                 arp::router{[](const ar::vector<std::string_view>& x, const ar::vector<std::string_view>& y) {
                     ++calls; n1 = x.size(); n2 = y.size();
                     for (std::size_t i = 0; i < n1 && i < 3; ++i) v1[i] = x[i];
                     for (std::size_t i = 0; i < n2 && i < 3; ++i) v2[i] = y[i]; }})), std::move(copy));
    const auto n = args.size();
    if (n == 0) return;
    std::size_t m = 0;
    while (m < n && !vh::same(args[m].name, "--")) ++m;
    const bool ok = m <= 2 && m < n && n - m - 1 >= 1 && n - m - 1 <= 2;
    if (!ok) { VH_COVER("rejected"); VH_ASSERT(o == vh::outcome::failed && calls == 0, "anything else is rejected"); return; }
    VH_COVER("accepted");
    VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
    VH_ASSERT(n1 == m && n2 == n - m - 1, "split at the first marker, which is dropped");
    for (std::size_t i = 0; i < n1; ++i) VH_ASSERT(vh::same(v1[i], args[i].name), "before the marker");
    for (std::size_t i = 0; i < n2; ++i) VH_ASSERT(vh::same(v2[i], args[m + 1 + i].name), "after the marker");
}

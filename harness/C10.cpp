// C10: value counts are enforced and excess tokens are left alone.
#include "node.hpp"
VH_DICT_TOKENS("--hello", "hello", "a", "b", "-c", "--", "");

// Any list offered to a named node taking between mn and mx values.
template <typename Node>
static void named(const Node& node, std::size_t mn, std::size_t mx)
{
    vh::offered o;
    vh::offer(o, node);
    if (o.n() == 0 || !vh::is_long(o.before[0], "--hello")) {
        VH_ASSERT(!o.matched && !o.threw, "a list that does not name the node is not its business");
        o.untouched("not matched: list untouched");
        return;
    }
    const auto avail = o.n() - 1;
    if (avail < mn) {
        VH_ASSERT(!o.matched && o.threw && o.ec == ar::error_code::minimum_count_not_reached, "too few values is the minimum-count error");
        VH_ASSERT(o.ec_tokens.size() == 1 && vh::same(o.ec_tokens[0].name, "hello"), "naming the node");
        return;
    }
    VH_ASSERT(o.matched && !o.threw, "enough values are accepted");
    const auto take = avail < mx ? avail : mx;
    o.took(1, take, "its values are the tokens after the name, up to the maximum");
    o.left(1 + take, "the other tokens are left in order");
}
// @entry named_range
VH_ENTRY(named_range)
{
    named(ar::multi_arg<ar::vector<std::string_view>>("hello"_S, arp::min_max_count<2, 4>), 2, 4);
    VH_COVER("reached");
}
// @entry named_fixed
VH_ENTRY(named_fixed)
{
    named(ar::multi_arg<ar::vector<std::string_view>>("hello"_S, arp::fixed_count<3>), 3, 3);
    VH_COVER("reached");
}
// @entry named_min
VH_ENTRY(named_min)
{
    named(ar::multi_arg<ar::vector<std::string_view>>("hello"_S, arp::min_count<1>), 1, ~std::size_t{0});
    VH_COVER("reached");
}
// @entry named_max
VH_ENTRY(named_max)
{
    named(ar::multi_arg<ar::vector<std::string_view>>("hello"_S, arp::min_max_count<1, 2>), 1, 2);
    VH_COVER("reached");
}
// @entry named_one
VH_ENTRY(named_one)
{
    named(ar::arg<std::string_view>("hello"_S), 1, 1);
    VH_COVER("reached");
}
// @entry named_none
VH_ENTRY(named_none)
{
    named(ar::flag("hello"_S), 0, 0);
    VH_COVER("reached");
}
// Any (non-empty: the mode only offers those) list offered to a positional node.
template <typename Node>
static void positional(const Node& node, std::size_t mn, std::size_t mx)
{
    vh::offered o;
    vh::offer(o, node);
    if (o.n() == 0) return;
    if (o.n() < mn) {
        VH_ASSERT(!o.matched && o.threw && o.ec == ar::error_code::minimum_count_not_reached, "too few values is the minimum-count error");
        VH_ASSERT(o.ec_tokens.size() == 1 && vh::same(o.ec_tokens[0].name, "pos"), "naming the node");
        return;
    }
    VH_ASSERT(o.matched && !o.threw, "enough values are accepted");
    const auto take = o.n() < mx ? o.n() : mx;
    o.took(0, take, "its values are the first tokens, up to the maximum");
    o.left(take, "the other tokens are left in order");
}
// @entry pos_range
VH_ENTRY(pos_range)
{
    positional(ar::positional_arg<ar::vector<std::string_view>>("pos"_S, arp::min_max_count<2, 4>), 2, 4);
    VH_COVER("reached");
}
// @entry pos_fixed
VH_ENTRY(pos_fixed)
{
    positional(ar::positional_arg<std::string_view>("pos"_S, arp::fixed_count<1>), 1, 1);
    VH_COVER("reached");
}
// @entry pos_any
VH_ENTRY(pos_any)
{
    positional(ar::positional_arg<ar::vector<std::string_view>>("pos"_S), 0, ~std::size_t{0});
    VH_COVER("reached");
}
// the counts reach the router: a fixed-size positional, then a ranged one
static int calls;
static std::string_view a, b, c;
static std::size_t n2;
// @entry routed
VH_ENTRY(routed)
{
    calls = 0; n2 = 0; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::positional_arg<std::string_view>("one"_S, arp::required, arp::fixed_count<1>),
                 ar::positional_arg<ar::vector<std::string_view>>("two"_S, arp::required, arp::min_max_count<1, 2>),
                 arp::router{[](std::string_view x, const ar::vector<std::string_view>& v) { ++calls; a = x; n2 = v.size(); b = v.size() > 0 ? v[0] : ""; c = v.size() > 1 ? v[1] : ""; }})), std::move(copy));
    const auto n = args.size();
    if (n == 2 || n == 3) {
        VH_COVER("accepted");
        VH_ASSERT(o == vh::outcome::routed && calls == 1, "a permitted number of values is accepted");
        VH_ASSERT(vh::same(a, args[0].name), "the fixed-size node takes exactly its count");
        VH_ASSERT(n2 == n - 1 && vh::same(b, args[1].name), "the next node gets the following ones in order");
        if (n == 3) VH_ASSERT(vh::same(c, args[2].name), "the next node gets the following ones in order (2)");
    } else {
        VH_COVER("rejected");
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "any other number is rejected");
        if (n == 1) VH_ASSERT(vh::ec == ar::error_code::missing_required_argument, "nothing for the second node");
        if (n > 3) {
            VH_ASSERT(vh::ec == ar::error_code::unhandled_arguments, "excess arguments are left over");
            VH_ASSERT(vh::ec_tokens.size() == n - 3 && vh::same(vh::ec_tokens[0].name, args[3].name), "exactly the excess ones");
        }
    }
}

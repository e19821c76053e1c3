// C12: values outside their declared range are rejected.
#include "node.hpp"
VH_DICT("--num", "x", "");

static int calls;
static std::int64_t got;
// conversion under the harness' control: any token converts to the arbitrary value
static std::int64_t value;
template <typename T, typename... P>
static vh::outcome run(P... p)
{
    calls = 0; got = 0; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args{{prefix_type::none, "--num"}, {prefix_type::none, "x"}};
    return vh::run(ar::root(vh::rec, arp::validation::default_validator,
                            ar::mode(ar::arg<T>("num"_S, p..., arp::required, arp::custom_parser<T>{[](std::string_view) { return static_cast<T>(value); }}),
                                     arp::router{[](T v) { ++calls; got = static_cast<std::int64_t>(v); }})),
                   std::move(args));
}
static void check(vh::outcome o, bool below, bool above)
{
    if (below || above) {
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "outside the range: rejected");
        VH_ASSERT(vh::ec == (below ? ar::error_code::minimum_value_not_reached : ar::error_code::maximum_value_exceeded), "the error of the bound that is broken");
        VH_ASSERT(vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, "num"), "naming the node");
    } else {
        VH_ASSERT(o == vh::outcome::routed && calls == 1 && got == value, "inside the range, bounds included: accepted");
    }
}
constexpr auto BIG = std::int64_t{1} << 40;
static std::int64_t sym(const char* n) { return static_cast<std::int64_t>(vh::any<std::uint64_t>(n, 0, BIG)) - (BIG >> 1); }
// @entry run_time
VH_ENTRY(run_time)
{
    value = sym("value");
    const auto lo = sym("lo"), hi = sym("hi");
    __v_assume(lo <= hi);
    const auto o = run<std::int64_t>(arp::min_max_value(std::int64_t{lo}, std::int64_t{hi}));
    if (value < lo) VH_COVER("below"); else if (value > hi) VH_COVER("above"); else VH_COVER("inside");
    if (value == lo) VH_COVER("on the minimum");
    if (value == hi) VH_COVER("on the maximum");
    check(o, value < lo, value > hi);
}
// @entry run_time_min
VH_ENTRY(run_time_min)
{
    value = sym("value");
    const auto lo = sym("lo");
    const auto o = run<std::int64_t>(arp::min_value(std::int64_t{lo}));
    if (value < lo) VH_COVER("below"); else VH_COVER("inside");
    check(o, value < lo, false);
}
// @entry run_time_max
VH_ENTRY(run_time_max)
{
    value = sym("value");
    const auto hi = sym("hi");
    const auto o = run<std::int64_t>(arp::max_value(std::int64_t{hi}));
    if (value > hi) VH_COVER("above"); else VH_COVER("inside");
    check(o, false, value > hi);
}
// a comparison of the user's own
struct reversed { bool operator()(std::int64_t a, std::int64_t b) const { return b < a; } };
// @entry run_time_compare
VH_ENTRY(run_time_compare)
{
    value = sym("value");
    const auto lo = sym("lo"), hi = sym("hi");
    __v_assume(hi <= lo);
    const auto o = run<std::int64_t>(arp::min_max_value(std::int64_t{lo}, std::int64_t{hi}, reversed{}));
    if (value > lo) VH_COVER("below"); else if (value < hi) VH_COVER("above"); else VH_COVER("inside");
    check(o, value > lo, value < hi);
}
// @entry compile_time
VH_ENTRY(compile_time)
{
    value = sym("value");
    const auto o = run<std::int64_t>(arp::min_max_value<std::int64_t{-7}, std::int64_t{1000}>());
    if (value < -7) VH_COVER("below"); else if (value > 1000) VH_COVER("above"); else VH_COVER("inside");
    check(o, value < -7, value > 1000);
}
// @entry compile_time_min
VH_ENTRY(compile_time_min)
{
    value = sym("value");
    const auto o = run<std::int64_t>(arp::min_value<std::int64_t{12}>());
    if (value < 12) VH_COVER("below"); else VH_COVER("inside");
    check(o, value < 12, false);
}
// @entry compile_time_max
VH_ENTRY(compile_time_max)
{
    value = sym("value");
    const auto o = run<std::int64_t>(arp::max_value<std::int64_t{-3}>());
    if (value > -3) VH_COVER("above"); else VH_COVER("inside");
    check(o, false, value > -3);
}
// every shape of compile-time bounds: zero, equal, extreme, of either sign; L > H stands for a bound that is not given
template <std::int64_t L, std::int64_t H>
static void bounds()
{
    const auto o = run<std::int64_t>(arp::min_max_value<L, H>());
    if (value < L) VH_COVER("below"); else if (value > H) VH_COVER("above"); else VH_COVER("inside");
    check(o, value < L, value > H);
}
template <std::int64_t L>
static void at_least()
{
    const auto o = run<std::int64_t>(arp::min_value<L>());
    if (value < L) VH_COVER("below the only bound"); else VH_COVER("at least the only bound");
    check(o, value < L, false);
}
template <std::int64_t H>
static void at_most()
{
    const auto o = run<std::int64_t>(arp::max_value<H>());
    if (value > H) VH_COVER("above the only bound"); else VH_COVER("at most the only bound");
    check(o, false, value > H);
}
// @entry compile_time_bounds
VH_ENTRY(compile_time_bounds)
{
    value = sym("value");
    bounds<0, 0>();
    bounds<0, 5>();
    bounds<-5, 0>();
    bounds<-5, -5>();
    bounds<-1, 1>();
    bounds<-(std::int64_t{1} << 33), (std::int64_t{1} << 33)>();
}
// @entry compile_time_one_bound
VH_ENTRY(compile_time_one_bound)
{
    value = sym("value");
    at_least<0>(); at_least<1>(); at_least<-1>(); at_least<-(std::int64_t{1} << 33)>();
    at_most<0>(); at_most<1>(); at_most<-1>(); at_most<(std::int64_t{1} << 33)>();
}
// narrow and unsigned values, whole range
// @entry narrow
VH_ENTRY(narrow)
{
    value = static_cast<std::int8_t>(vh::any<std::uint8_t>("value"));
    const auto lo = static_cast<std::int8_t>(vh::any<std::uint8_t>("lo")), hi = static_cast<std::int8_t>(vh::any<std::uint8_t>("hi"));
    __v_assume(lo <= hi);
    const auto o = run<std::int8_t>(arp::min_max_value(std::int8_t{lo}, std::int8_t{hi}));
    if (value < lo) VH_COVER("below"); else if (value > hi) VH_COVER("above"); else VH_COVER("inside");
    check(o, value < lo, value > hi);
}
// @entry unsigned_narrow
VH_ENTRY(unsigned_narrow)
{
    value = vh::any<std::uint8_t>("value");
    const auto lo = vh::any<std::uint8_t>("lo"), hi = vh::any<std::uint8_t>("hi");
    __v_assume(lo <= hi);
    const auto o = run<std::uint8_t>(arp::min_max_value(std::uint8_t{lo}, std::uint8_t{hi}));
    if (value < lo) VH_COVER("below"); else if (value > hi) VH_COVER("above"); else VH_COVER("inside");
    check(o, value < lo, value > hi);
}
// a counting flag's count is checked too
static std::size_t count;
// @entry counting bound=up_to_3_occurrences native=no
VH_ENTRY(counting)
{
    calls = 0; count = 0; vh::ec = {}; vh::ec_tokens.clear();
    const auto n = vh::any<std::size_t>("n", 1, 3);
    tokens_t args;
    for (std::size_t i = 0; i < n; ++i) args.push_back({prefix_type::none, "--num"});
    const auto lo = vh::any<std::size_t>("lo", 0, 5), hi = vh::any<std::size_t>("hi", 0, 5);
    __v_assume(lo <= hi);
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
                            ar::mode(ar::counting_flag<std::size_t>("num"_S, arp::default_value{std::size_t{0}}, arp::min_max_value(std::size_t{lo}, std::size_t{hi})),
                                     arp::router{[](std::size_t v) { ++calls; count = v; }})), std::move(args));
    VH_COVER("reached");
    if (n < lo || n > hi) VH_ASSERT(o == vh::outcome::failed && calls == 0 && vh::ec == (n < lo ? ar::error_code::minimum_value_not_reached : ar::error_code::maximum_value_exceeded), "outside: rejected");
    else VH_ASSERT(o == vh::outcome::routed && calls == 1 && count == n, "inside: accepted");
}

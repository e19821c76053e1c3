// C07: a counting flag delivers its number of occurrences.
#include "tree.hpp"
VH_DICT("--verbose", "-v", "-vv", "-vvv", "-vvvv", "--hello", "x", "--", "");

// one more occurrence, whatever the count so far (every count below the largest)
// @entry step
VH_ENTRY(step)
{
    const auto f = ar::counting_flag<std::size_t>("verbose"_S);
    const bool first = vh::any<std::uint8_t>("first", 0, 1);
    const auto n = vh::any<std::uint64_t>("count", 0, ~0ull - 1);
    std::optional<std::size_t> r;
    if (!first) r = n;
    f.merge(r, true);
    if (first) VH_COVER("first"); else VH_COVER("later");
    VH_ASSERT(r.has_value(), "a value is present after an occurrence");
    VH_ASSERT(*r == (first ? 1 : n + 1), "each occurrence adds exactly one");
}
enum class level : std::uint8_t { a, b, c, d, e };
// @entry step_enum
VH_ENTRY(step_enum)
{
    const auto f = ar::counting_flag<level>("verbose"_S);
    const auto n = vh::any<std::uint8_t>("count", 0, 254);
    std::optional<level> r = static_cast<level>(n);
    f.merge(r, true);
    VH_COVER("later");
    VH_ASSERT(static_cast<unsigned>(*r) == n + 1u, "each occurrence adds exactly one");
}
static std::size_t got;
static int calls;
template <typename... P>
static vh::outcome run(tokens_t args, P... p)
{
    got = 0; calls = 0; vh::ec = {}; vh::ec_tokens.clear();
    return vh::run(ar::root(vh::rec, arp::validation::default_validator,
                            ar::mode(ar::counting_flag<std::size_t>(p...), ar::flag("hello"_S), arp::router{[](std::size_t n, bool) { ++calls; got = n; }})),
                   std::move(args));
}
// occurrences in a list of long names, in any positions
// @entry count_long unroll=12 unroll_t=40
VH_ENTRY(count_long)
{
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    const auto o = run(args, "verbose"_S, arp::default_value{std::size_t{7}});
    std::size_t n = 0, h = 0;
    for (const auto& a : args) {
        if (vh::same(a.name, "--verbose")) ++n;
        else if (vh::same(a.name, "--hello") && !h) ++h;
        else { VH_COVER("something else"); VH_ASSERT(o == vh::outcome::failed, "nothing else is accepted"); return; }
    }
    if (n > 3) VH_COVER("many");
    if (n == 0) VH_COVER("none");
    VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
    VH_ASSERT(got == (n ? n : 7), "the number of occurrences, or the default if there are none");
}
// minimum and maximum
// @entry count_range unroll=8 unroll_t=20
VH_ENTRY(count_range)
{
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    const auto lo = vh::any<std::size_t>("lo", 0, 4), hi = vh::any<std::size_t>("hi", 0, 6);
    __v_assume(lo <= hi);
    const auto o = run(args, "verbose"_S, arp::min_max_value(std::size_t{lo}, std::size_t{hi}), arp::default_value{std::size_t{lo}});
    std::size_t n = 0;
    for (const auto& a : args) { if (!vh::same(a.name, "--verbose")) return; ++n; }
    if (n == 0) { VH_COVER("none"); VH_ASSERT(o == vh::outcome::routed && got == lo, "default"); return; }
    if (n < lo) { VH_COVER("too few"); VH_ASSERT(o == vh::outcome::failed && calls == 0 && vh::ec == ar::error_code::minimum_value_not_reached, "below the minimum"); }
    else if (n > hi) { VH_COVER("too many"); VH_ASSERT(o == vh::outcome::failed && calls == 0 && vh::ec == ar::error_code::maximum_value_exceeded, "above the maximum"); }
    else { VH_COVER("inside"); VH_ASSERT(o == vh::outcome::routed && got == n, "inside the range"); }
}
// short and collapsed forms
// @entry count_short unroll=4 unroll_t=6 budget=60 bound=two_arguments_of_at_most_4_bytes
VH_ENTRY(count_short)
{
    tokens_t args;
    __v_args("args", 2, &args);
    for (const auto& a : args) __v_assume(a.name.size() <= 4);
    const auto o = run(args, "verbose"_S, "v"_S, arp::default_value{std::size_t{7}});
    std::size_t n = 0;
    for (const auto& a : args) {
        if (a.name.size() < 2 || a.name[0] != '-') return;
        for (std::size_t i = 1; i < a.name.size(); ++i) if (a.name[i] != 'v') return;
        n += a.name.size() - 1;
    }
    if (n == 0) { VH_ASSERT(got == 7, "default"); return; }
    if (n > 3) VH_COVER("many");
    VH_COVER("some");
    VH_ASSERT(o == vh::outcome::routed && got == n, "every character counts");
}

// C20: mode selection follows the leading tokens and routes only that mode.
#include "node.hpp"
VH_DICT("aa", "bb", "cc", "dd", "ee", "--hello", "--world", "--num", "--text", "", "v", "a", "aab");

struct got_t { int calls; int which; bool f, g; };
static got_t got;
static auto route(int n) { return arp::router{[n](bool f) { ++got.calls; got.which = n; got.f = f; }}; }
static vh::outcome run(tokens_t args, bool anonymous)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    const auto aa = [] {
        return ar::mode("aa"_S, ar::flag("num"_S), route(1),
                        ar::mode("bb"_S, ar::flag("hello"_S), route(2)),
                        ar::mode("cc"_S, ar::flag("hello"_S), ar::flag("foo"_S), arp::router{[](bool f, bool g) { ++got.calls; got.which = 3; got.f = f; got.g = g; }}));
    };
    const auto dd = [] { return ar::mode("dd"_S, ar::mode("ee"_S, ar::flag("hello"_S), route(4))); };
    if (anonymous)
        return vh::run(ar::root(vh::rec, arp::validation::default_validator, aa(), dd(), ar::mode(ar::flag("world"_S), route(5))), std::move(args));
    return vh::run(ar::root(vh::rec, arp::validation::default_validator, aa(), dd()), std::move(args));
}
// what follows the mode names: each of its flags at most once
struct rest { bool ok = true, twice = false, f = false, g = false; };
static rest flags(const tokens_t& a, std::size_t from, std::string_view f, std::string_view g)
{
    rest r;
    for (std::size_t i = from; i < a.size(); ++i) {
        bool* which = vh::same(a[i].name, f) ? &r.f : (!g.empty() && vh::same(a[i].name, g)) ? &r.g : nullptr;
        if (!which || *which) { r.ok = false; r.twice = which != nullptr; return r; }
        *which = true;
    }
    return r;
}
static void modes(bool anonymous)
{
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    const auto a = args;
    const auto o = run(std::move(args), anonymous);
    const auto is = [&](std::size_t i, std::string_view s) { return i < a.size() && vh::same(a[i].name, s); };
    int which = 0;
    rest r;
    if (is(0, "aa")) {
        if (is(1, "bb")) { which = 2; r = flags(a, 2, "--hello", ""); }
        else if (is(1, "cc")) { which = 3; r = flags(a, 2, "--hello", "--foo"); }
        else { which = 1; r = flags(a, 1, "--num", ""); }
    } else if (is(0, "dd")) {
        if (is(1, "ee")) { which = 4; r = flags(a, 2, "--hello", ""); }
        else {
            VH_COVER("mode of modes");
            VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "a mode that only contains modes routes nothing itself");
            if (a.size() == 1) {
                VH_ASSERT(vh::ec == ar::error_code::mode_requires_arguments, "nothing follows it: the mode-requires-arguments error");
                VH_ASSERT(vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, "dd"), "naming the mode");
            } else {
                VH_ASSERT(vh::ec == ar::error_code::unknown_argument || vh::ec == ar::error_code::unknown_argument_with_suggestion || vh::ec == ar::error_code::unhandled_arguments, "something unknown follows it");
            }
            return;
        }
    } else if (anonymous) {
        which = 5;
        r = flags(a, 0, "--world", "");
    } else {
        VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "no mode is selected");
        VH_ASSERT(a.size() != 0 || vh::ec == ar::error_code::no_arguments_passed, "nothing given: the no-arguments error");
        return;
    }
    if (r.ok) {
        VH_ASSERT(o == vh::outcome::routed && got.calls == 1, "accepted");
        VH_ASSERT(got.which == which, "the deepest mode named by the leading tokens is routed");
        VH_ASSERT(got.f == r.f && got.g == r.g, "with its own options");
        if (which == 3) VH_COVER("nested");
        if (which == 1) VH_COVER("outer");
    } else {
        VH_COVER("rejected");
        VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "options of another mode, or repeated ones, are rejected");
        VH_ASSERT((vh::ec == ar::error_code::argument_has_already_been_set) == r.twice, "already set iff repeated");
    }
}
// @entry with_anonymous
VH_ENTRY(with_anonymous)
{
    modes(true);
}
// @entry named_only
VH_ENTRY(named_only)
{
    modes(false);
}
// the names of modes select nothing once a mode's own arguments have begun
struct vals_t { int calls, which; std::string_view v, w; };
static vals_t vals;
// @entry names_as_values
VH_ENTRY(names_as_values)
{
    using sv = std::string_view;
    vals = {}; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    const auto a = args;
    const auto to = [](int n) { return arp::router{[n](sv t) { ++vals.calls; vals.which = n; vals.v = t; }}; };
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode("aa"_S, ar::arg<sv>("text"_S, arp::required), to(1), ar::mode("bb"_S, ar::arg<sv>("text"_S, arp::required), to(2))),
        ar::mode("cc"_S, ar::positional_arg<sv>("pos"_S, arp::fixed_count<1>, arp::required), to(3)),
        ar::mode(ar::positional_arg<sv>("one"_S, arp::fixed_count<1>, arp::required), ar::positional_arg<sv>("two"_S, arp::fixed_count<1>, arp::required),
                 arp::router{[](sv t, sv u) { ++vals.calls; vals.which = 4; vals.v = t; vals.w = u; }})), std::move(args));
    const auto is = [&](std::size_t i, sv s) { return i < a.size() && vh::same(a[i].name, s); };
    const auto n = a.size();
    int which = 0;
    sv v, w;
    if (is(0, "aa")) {
        const std::size_t at = is(1, "bb") ? 2 : 1;
        if (n == at + 2 && is(at, "--text")) { which = static_cast<int>(at); v = a[at + 1].name; }
    } else if (is(0, "cc")) { if (n == 2) { which = 3; v = a[1].name; } }
    else if (n == 2) { which = 4; v = a[0].name; w = a[1].name; }
    if (!which) { VH_COVER("rejected"); VH_ASSERT(o == vh::outcome::failed && vals.calls == 0, "nothing is routed"); return; }
    VH_ASSERT(o == vh::outcome::routed && vals.calls == 1 && vals.which == which, "the deepest mode named by the leading tokens is routed");
    VH_ASSERT(vh::same(vals.v, v) && vh::same(vals.w, w), "with what follows");
    if (which == 2) VH_COVER("inner");
    if (which == 3) VH_COVER("positional");
    if (which == 4) VH_COVER("anonymous");
}
// options next to modes
// @entry beside_options
VH_ENTRY(beside_options)
{
    vals = {}; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    const auto a = args;
    const auto to = [](int n) { return arp::router{[n](bool) { ++vals.calls; vals.which = n; }}; };
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator, ar::flag("world"_S, to(1)),
        ar::mode("aa"_S, ar::mode("bb"_S, ar::mode("cc"_S, ar::flag("hello"_S), to(2))), ar::mode("dd"_S, ar::flag("hello"_S), to(3)))), std::move(args));
    const auto is = [&](std::size_t i, std::string_view s) { return i < a.size() && vh::same(a[i].name, s); };
    int which = 0;
    std::size_t at = 0;
    if (is(0, "--world")) { which = a.size() == 1 ? 1 : 0; at = 1; }
    else if (is(0, "aa") && is(1, "bb") && is(2, "cc")) { which = 2; at = 3; }
    else if (is(0, "aa") && is(1, "dd")) { which = 3; at = 2; }
    if (which > 1 && a.size() > at && (a.size() > at + 1 || !is(at, "--hello"))) which = 0;
    if (which) { VH_ASSERT(o == vh::outcome::routed && vals.calls == 1 && vals.which == which, "the deepest mode named by the leading tokens is routed"); }
    else { VH_COVER("rejected"); VH_ASSERT(o == vh::outcome::failed && vals.calls == 0, "nothing is routed"); }
    if (which == 2) VH_COVER("three deep");
    if (which == 1) VH_COVER("an option");
    if (!which && a.size() == 2 && is(0, "aa") && is(1, "bb")) VH_ASSERT(vh::ec == ar::error_code::mode_requires_arguments && vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, "bb"), "the mode-requires-arguments error naming the mode");
}

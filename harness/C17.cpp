// C17: all members of an alias group set the same value.
#include "node.hpp"
VH_DICT("--hello", "--text", "--num", "--world", "v", "w", "", "--", "-h", "--count", "--level");
namespace ard = ar::dependency;

struct num_t { std::string_view t; };
struct got_t { int calls; bool w; std::string_view t; };
static got_t got;
template <typename P>
static auto tree(P p)
{
    return ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ard::alias_group(ar::arg<std::string_view>("text"_S),
                                  ar::arg<std::string_view>("num"_S, arp::custom_parser<std::string_view>{[](std::string_view t) { return t.substr(t.size() > 0 ? 1 : 0); }}), p),
                 ar::flag("world"_S), arp::router{[](std::string_view t, bool w) { ++got.calls; got.t = t; got.w = w; }}));
}
template <typename Root>
static int parse(const Root& r, bool required)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(r, std::move(copy));
    int kind = -1;
    bool w = false;
    std::string_view v;
    for (std::size_t i = 0; i < args.size(); ++i) {
        const auto t = args[i].name;
        const int k = vh::same(t, "--text") ? 0 : vh::same(t, "--num") ? 1 : -1;
        if (k < 0) {
            if (!vh::same(t, "--world") || w) { VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "anything else is rejected"); return -2; }
            w = true;
            continue;
        }
        if (kind >= 0) {
            VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "a second member is rejected");
            if (i + 1 < args.size()) { VH_ASSERT(vh::ec == ar::error_code::argument_has_already_been_set, "already-been-set error"); return -3; }
            return -2;
        }
        if (i + 1 >= args.size()) { VH_ASSERT(o == vh::outcome::failed && got.calls == 0 && vh::ec == ar::error_code::minimum_count_not_reached, "value missing"); return -2; }
        kind = k;
        v = args[++i].name;
        if (k == 1) v = v.substr(v.size() > 0 ? 1 : 0);
    }
    if (kind < 0 && required) { VH_ASSERT(o == vh::outcome::failed && got.calls == 0 && vh::ec == ar::error_code::missing_required_argument, "none given: required"); return -1; }
    VH_ASSERT(o == vh::outcome::routed && got.calls == 1 && got.w == w, "accepted");
    VH_ASSERT(vh::same(got.t, kind < 0 ? std::string_view{"dflt"} : v), "the value the member delivers, or the default");
    return kind;
}
// @entry required
VH_ENTRY(required)
{
    const auto k = parse(tree(arp::required), true);
    if (k == -3) VH_COVER("twice");
    if (k == -1) VH_COVER("none");
    if (k == 1) VH_COVER("one");
}
// @entry defaulted
VH_ENTRY(defaulted)
{
    const auto k = parse(tree(arp::default_value{std::string_view{"dflt"}}), false);
    if (k == -3) VH_COVER("twice");
    if (k == -1) VH_COVER("none");
    if (k == 0) VH_COVER("one");
}
// a counting flag and a value option setting one level
enum class level : std::uint8_t { a, b, c, d, e, f };
static level lv;
static int calls;
// @entry levels unroll=8 unroll_t=16
VH_ENTRY(levels)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ard::alias_group(ar::counting_flag<level>("count"_S), ar::arg<level>("level"_S, arp::custom_parser<level>{[](std::string_view t) { return static_cast<level>(t.size() & 3); }}), arp::default_value{level::f}),
                 arp::router{[](level l) { ++calls; lv = l; }})), std::move(copy));
    std::size_t n = 0;
    for (const auto& a : args) { if (!vh::same(a.name, "--count")) { n = 99; break; } ++n; if (n > 200) return; }
    if (n < 90) {
        VH_COVER("counted");
        VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
        VH_ASSERT(static_cast<std::size_t>(lv) == (n ? n : 5), "the number of occurrences");
    } else if (args.size() == 2 && vh::same(args[0].name, "--level")) {
        VH_COVER("value");
        VH_ASSERT(o == vh::outcome::routed && calls == 1 && static_cast<std::size_t>(lv) == (args[1].name.size() & 3), "the value option's value");
    }
}

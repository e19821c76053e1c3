// C21: unrecognised arguments are reported as such, naming the offender.
#include "node.hpp"
VH_DICT("--hello", "--text", "--world", "v", "", "-x", "--", "x", "cmd", "--helo", "--num");

static int calls;
template <typename Root>
static vh::outcome attempt(const Root& r, const tokens_t& a)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear();
    auto copy = a;
    return vh::run(r, std::move(copy));
}
static tokens_t any_args()
{
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    return args;
}
// the error names the argument at position i, as it was typed
static void unknown(const tokens_t& a, std::size_t i)
{
    VH_COVER("unknown");
    VH_ASSERT(vh::ec == ar::error_code::unknown_argument_with_suggestion, "the unknown-argument error");
    VH_ASSERT(vh::ec_tokens.size() == 2, "the argument and one suggestion");
    VH_ASSERT(vh::ec_tokens[0].prefix == a[i].prefix && vh::same(vh::ec_tokens[0].name, a[i].name), "naming the first argument that belongs to no node");
}
// the error lists exactly the arguments from position i on
static void leftover(const tokens_t& a, std::size_t i)
{
    VH_COVER("left over");
    VH_ASSERT(vh::ec == ar::error_code::unhandled_arguments, "the unhandled-arguments error");
    VH_ASSERT(vh::ec_tokens.size() == a.size() - i, "with every left-over argument");
    vh::forall("k", a.size() - i, [&](std::size_t k) {
        VH_ASSERT(vh::ec_tokens[k].prefix == a[i + k].prefix && vh::same(vh::ec_tokens[k].name, a[i + k].name), "in order"); });
}
// @entry options
VH_ENTRY(options)
{
    const auto a = any_args();
    const auto o = attempt(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S), ar::arg<std::string_view>("text"_S), ar::flag("world"_S), arp::router{[](bool, std::string_view, bool) { ++calls; }})), a);
    bool h = false, t = false, w = false;
    std::size_t i = 0;
    for (; i < a.size(); ++i) {
        bool* s = nullptr;
        if (vh::same(a[i].name, "--hello")) s = &h;
        else if (vh::same(a[i].name, "--world")) s = &w;
        else if (vh::same(a[i].name, "--text")) s = &t;
        if (!s) break;
        if (s == &t && i + 1 == a.size()) {
            VH_ASSERT(o == vh::outcome::failed && calls == 0 && (vh::ec == ar::error_code::minimum_count_not_reached || t), "not an unknown argument");
            return;
        }
        if (*s) { VH_ASSERT(o == vh::outcome::failed && calls == 0 && vh::ec == ar::error_code::argument_has_already_been_set, "not an unknown argument"); return; }
        *s = true;
        if (s == &t) ++i;
    }
    if (i >= a.size()) { VH_ASSERT(o == vh::outcome::routed && calls == 1, "every argument was consumed: no error"); return; }
    VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
    if (h && t && w) leftover(a, i);
    else unknown(a, i);
}
// @entry positional
VH_ENTRY(positional)
{
    const auto a = any_args();
    const auto o = attempt(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S), ar::positional_arg<std::string_view>("one"_S, arp::fixed_count<1>, arp::required),
                 ar::positional_arg<std::string_view>("two"_S, arp::fixed_count<1>, arp::default_value{std::string_view{}}),
                 arp::router{[](bool, std::string_view, std::string_view) { ++calls; }})), a);
    bool h = false;
    std::size_t p = 0, i = 0;
    for (; i < a.size(); ++i) {
        if (vh::same(a[i].name, "--hello")) {
            if (h) { VH_ASSERT(o == vh::outcome::failed && vh::ec == ar::error_code::argument_has_already_been_set, "not an unknown argument"); return; }
            h = true;
            continue;
        }
        if (p == 2) break;
        ++p;
    }
    if (i >= a.size()) {
        if (p == 0) VH_ASSERT(o == vh::outcome::failed && vh::ec == ar::error_code::missing_required_argument, "the required one is missing");
        else VH_ASSERT(o == vh::outcome::routed && calls == 1, "every argument was consumed: no error");
        return;
    }
    VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
    if (h) leftover(a, i);
    else unknown(a, i);
}
// A root of top-level nodes and a named mode.
// @entry top_level
VH_ENTRY(top_level)
{
    const auto a = any_args();
    const auto o = attempt(ar::root(vh::rec, arp::validation::default_validator,
        ar::flag("hello"_S, arp::router{[](bool) { ++calls; }}), ar::arg<std::string_view>("text"_S, arp::router{[](std::string_view) { ++calls; }}),
        ar::mode("cmd"_S, ar::flag("world"_S), ar::flag("num"_S), arp::router{[](bool, bool) { ++calls; }})), a);
    if (a.size() == 0) { VH_COVER("none"); VH_ASSERT(o == vh::outcome::failed && vh::ec == ar::error_code::no_arguments_passed && vh::ec_tokens.size() == 0, "nothing given: the no-arguments error"); return; }
    if (vh::same(a[0].name, "--hello")) {
        if (a.size() == 1) { VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted"); return; }
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
        leftover(a, 1);
        return;
    }
    if (vh::same(a[0].name, "--text")) {
        if (a.size() == 1) { VH_ASSERT(o == vh::outcome::failed && vh::ec == ar::error_code::minimum_count_not_reached, "its value is missing"); return; }
        if (a.size() == 2) { VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted"); return; }
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
        leftover(a, 2);
        return;
    }
    if (vh::same(a[0].name, "cmd")) {
        bool w = false, n = false;
        for (std::size_t i = 1; i < a.size(); ++i) {
            bool* s = vh::same(a[i].name, "--world") ? &w : vh::same(a[i].name, "--num") ? &n : nullptr;
            if (!s) {
                VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
                if (w && n) leftover(a, i);
                else unknown(a, i);
                return;
            }
            if (*s) { VH_ASSERT(o == vh::outcome::failed && vh::ec == ar::error_code::argument_has_already_been_set, "not an unknown argument"); return; }
            *s = true;
        }
        VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
        return;
    }
    VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
    unknown(a, 0);
}

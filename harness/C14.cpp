// C14: an alias equals giving the value to every aliased node.
#include "node.hpp"
VH_DICT("--all", "--hello", "--world", "--text", "--opt", "--both", "v", "w", "", "--", "-h", "-ah");

static int calls;
// flags and values share this reading: first, second node and the alias of both; an argument list means ...
struct meaning { bool ok = false, few = false, a = false, b = false; std::string_view av, bv; };
static meaning read(const tokens_t& l, std::string_view first, std::string_view second, std::string_view alias, bool values)
{
    meaning m;
    for (std::size_t i = 0; i < l.size(); ++i) {
        const auto t = l[i].name;
        const bool both = vh::same(t, alias), a = both || vh::same(t, first), b = both || vh::same(t, second);
        if ((!a && !b) || (a && m.a) || (b && m.b)) return m;   // unknown, or set already
        if (values) {
            if (i + 1 >= l.size()) { m.few = true; return m; }
            ++i;
        }
        if (a) { m.a = true; m.av = values ? l[i].name : ""; }
        if (b) { m.b = true; m.bv = values ? l[i].name : ""; }
    }
    m.ok = true;
    return m;
}
// every argument list of flags
static bool ga, gb;
// @entry flags
VH_ENTRY(flags)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); ga = gb = false;
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S), ar::flag("world"_S), ar::flag("all"_S, arp::alias(arp::long_name_t{"hello"_S}, arp::long_name_t{"world"_S})),
                 arp::router{[](bool h, bool w) { ++calls; ga = h; gb = w; }})), std::move(copy));
    const auto m = read(args, "--hello", "--world", "--all", false);
    if (m.ok) {
        VH_COVER("accepted");
        VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
        VH_ASSERT(ga == m.a && gb == m.b, "flags are set directly or through the alias");
    } else {
        VH_COVER("rejected");
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
    }
}
// every argument list of value options
static std::string_view gt, go;
// @entry values
VH_ENTRY(values)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); gt = go = {};
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::arg<std::string_view>("text"_S, arp::default_value{std::string_view{"td"}}),
                 ar::arg<std::string_view>("opt"_S, arp::default_value{std::string_view{"od"}}),
                 ar::arg<std::string_view>("both"_S, arp::alias(arp::long_name_t{"text"_S}, arp::long_name_t{"opt"_S})),
                 arp::router{[](std::string_view t, std::string_view x) { ++calls; gt = t; go = x; }})), std::move(copy));
    const auto m = read(args, "--text", "--opt", "--both", true);
    if (m.ok) {
        VH_COVER("accepted");
        VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
        VH_ASSERT(vh::same(gt, m.a ? m.av : std::string_view{"td"}) && vh::same(go, m.b ? m.bv : std::string_view{"od"}), "each aliased node receives the alias' value");
    } else {
        VH_COVER("rejected");
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
        if (m.few) { VH_COVER("too few"); VH_ASSERT(vh::ec == ar::error_code::minimum_count_not_reached || vh::ec == ar::error_code::too_few_values_for_alias, "too few values is a count error"); }
    }
}
// an alias of two values per node, offered any list by its mode: its own tokens only
static std::size_t n1, n2;
static std::string_view v1[2], v2[2], rest;
// @entry counts
VH_ENTRY(counts)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); n1 = n2 = 0;
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::multi_arg<ar::vector<std::string_view>>("text"_S, arp::fixed_count<2>, arp::required),
                 ar::multi_arg<ar::vector<std::string_view>>("opt"_S, arp::fixed_count<2>, arp::required),
                 ar::multi_arg<ar::vector<std::string_view>>("both"_S, arp::fixed_count<2>, arp::alias(arp::long_name_t{"text"_S}, arp::long_name_t{"opt"_S})),
                 ar::positional_arg<std::string_view>("rest"_S, arp::fixed_count<1>, arp::required),
                 arp::router{[](const ar::vector<std::string_view>& a, const ar::vector<std::string_view>& b, std::string_view r) {
                     ++calls; n1 = a.size(); n2 = b.size(); rest = r;
                     for (std::size_t i = 0; i < 2 && i < n1; ++i) v1[i] = a[i];
                     for (std::size_t i = 0; i < 2 && i < n2; ++i) v2[i] = b[i]; }})), std::move(copy));
    if (args.size() == 0 || !vh::same(args[0].name, "--both")) return;
    if (args.size() < 3) {
        VH_COVER("too few");
        VH_ASSERT(o == vh::outcome::failed && calls == 0 && (vh::ec == ar::error_code::minimum_count_not_reached || vh::ec == ar::error_code::too_few_values_for_alias), "too few values is a count error");
        return;
    }
    if (args.size() == 4) {
        for (auto w : {"--text", "--opt", "--both"}) if (vh::same(args[3].name, w)) return;   // named again
        VH_COVER("one beyond the count");
        VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
        VH_ASSERT(n1 == 2 && n2 == 2, "both nodes get all values");
        VH_ASSERT(vh::same(v1[0], args[1].name) && vh::same(v1[1], args[2].name) && vh::same(v2[0], args[1].name) && vh::same(v2[1], args[2].name), "in order");
        VH_ASSERT(vh::same(rest, args[3].name), "tokens beyond the count are left for others");
    }
}
// the same alias, reached through its short name
// @entry short_name unroll=4 budget=60 bound=three_arguments_of_at_most_2_bytes
VH_ENTRY(short_name)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); ga = gb = false;
    tokens_t args;
    __v_args("args", 3, &args);
    for (const auto& a : args) __v_assume(a.name.size() <= 2);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("h"_S), ar::flag("w"_S), ar::flag("a"_S, arp::alias(arp::short_name_t{"h"_S}, arp::short_name_t{"w"_S})),
                 arp::router{[](bool h, bool w) { ++calls; ga = h; gb = w; }})), std::move(copy));
    // lists of single short names
    meaning m;
    m = read(args, "-h", "-w", "-a", false);
    if (m.ok) { VH_COVER("accepted"); VH_ASSERT(o == vh::outcome::routed && calls == 1 && ga == m.a && gb == m.b, "set directly or through the alias"); }
}
// an alias of an alias
// @entry chained
VH_ENTRY(chained)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); ga = gb = false;
    tokens_t args{{prefix_type::none, "--more"}};
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S), ar::flag("world"_S), ar::flag("all"_S, arp::alias(arp::long_name_t{"hello"_S}, arp::long_name_t{"world"_S})),
                 ar::flag("more"_S, arp::alias(arp::long_name_t{"all"_S})),
                 arp::router{[](bool h, bool w) { ++calls; ga = h; gb = w; }})), std::move(args));
    VH_COVER("chain");
    VH_ASSERT(o == vh::outcome::routed && calls == 1 && ga && gb, "the alias of an alias sets the aliased nodes");
}

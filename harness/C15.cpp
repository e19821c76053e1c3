// C15: a dependent node is accepted only with what it depends on.
#include "node.hpp"
VH_DICT("--hello", "--text", "--opt", "--foo", "v", "w", "", "--", "-h");

static int calls;
static bool gh;
static std::string_view gt, go;
// text depends on hello; opt depends on hello and text
// @entry chain
VH_ENTRY(chain)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); gh = false; gt = go = {};
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S),
                 ar::arg<std::string_view>("text"_S, arp::default_value{std::string_view{}}, arp::dependent(arp::long_name_t{"hello"_S})),
                 ar::arg<std::string_view>("opt"_S, arp::default_value{std::string_view{}}, arp::dependent(arp::long_name_t{"hello"_S}, arp::long_name_t{"text"_S})),
                 arp::router{[](bool h, std::string_view t, std::string_view x) { ++calls; gh = h; gt = t; go = x; }})), std::move(copy));
    // reading
    bool h = false, t = false, x = false, missing = false, bad = false;
    std::string_view tv, xv, lacks;
    for (std::size_t i = 0; i < args.size() && !bad && !missing; ++i) {
        const auto a = args[i].name;
        const bool ah = vh::same(a, "--hello"), at = vh::same(a, "--text"), ax = vh::same(a, "--opt");
        if (!ah && !at && !ax) { bad = true; break; }
        if ((ah && h) || (at && t) || (ax && x)) { bad = true; break; }
        if (ah) { h = true; continue; }
        if (i + 1 >= args.size()) { bad = true; break; }
        if (!h) { missing = true; lacks = "hello"; }
        else if (ax && !t) { missing = true; lacks = "text"; }
        ++i;
        if (at) { t = true; tv = args[i].name; }
        if (ax) { x = true; xv = args[i].name; }
    }
    if (missing) {
        VH_COVER("dependency missing");
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "no router call");
        VH_ASSERT(vh::ec == ar::error_code::dependent_argument_missing, "dependent-argument-missing error");
        VH_ASSERT(vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, lacks), "naming what it lacks");
    } else if (bad) {
        VH_COVER("other failure");
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "rejected");
        VH_ASSERT(vh::ec != ar::error_code::dependent_argument_missing, "never when the dependencies were given");
    } else {
        VH_COVER("accepted");
        VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted with its dependencies");
        VH_ASSERT(gh == h && vh::same(gt, tv) && vh::same(go, xv), "values");
    }
}
// dependency on a node that is given through an alias, and on a value option
// @entry alias
VH_ENTRY(alias)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); gh = false; gt = {};
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S), ar::flag("world"_S, arp::dependent(arp::long_name_t{"hello"_S})),
                 ar::flag("foo"_S, arp::alias(arp::long_name_t{"hello"_S})),
                 arp::router{[](bool h, bool w) { ++calls; gh = w; }})), std::move(copy));
    bool h = false, w = false;
    for (std::size_t i = 0; i < args.size(); ++i) {
        const auto a = args[i].name;
        if (vh::same(a, "--hello") || vh::same(a, "--foo")) { if (h) { VH_ASSERT(o == vh::outcome::failed && calls == 0, "given twice"); return; } h = true; }
        else if (vh::same(a, "--world")) {
            if (w) return;
            if (!h) {
                VH_COVER("dependency missing");
                VH_ASSERT(o == vh::outcome::failed && calls == 0 && vh::ec == ar::error_code::dependent_argument_missing, "dependent-argument-missing error");
                return;
            }
            w = true;
        } else return;
    }
    VH_COVER("accepted");
    VH_ASSERT(o == vh::outcome::routed && calls == 1 && gh == w, "accepted");
}
// @entry short_names unroll=4 budget=60 bound=three_arguments_of_at_most_3_bytes
VH_ENTRY(short_names)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); gh = false;
    tokens_t args;
    __v_args("args", 3, &args);
    for (const auto& a : args) __v_assume(a.name.size() <= 3);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("h"_S), ar::flag("w"_S, arp::dependent(arp::short_name_t{"h"_S})),
                 arp::router{[](bool h, bool w) { ++calls; gh = w; }})), std::move(copy));
    bool h = false, w = false;
    for (const auto& a : args) {
        if (a.name.size() < 2 || a.name[0] != '-') return;
        for (std::size_t i = 1; i < a.name.size(); ++i) if (a.name[i] != 'h' && a.name[i] != 'w') return;
        for (std::size_t i = 1; i < a.name.size(); ++i) {
            if (a.name[i] == 'h' && !h) h = true;
            else if (a.name[i] == 'w' && !w) {
                if (!h) { VH_COVER("dependency missing"); VH_ASSERT(o == vh::outcome::failed && calls == 0 && vh::ec == ar::error_code::dependent_argument_missing, "dependent-argument-missing error"); return; }
                w = true;
            } else return;
        }
    }
    VH_COVER("accepted");
    VH_ASSERT(o == vh::outcome::routed && calls == 1 && gh == w, "accepted");
}

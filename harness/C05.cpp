// C05: a single-use node given twice is rejected.
#include "one_mode.hpp"
#include "options.hpp"
VH_DICT("-t", "aa", "bb", "--num=7", "--num=", "--num", "--list", "a", "b", "--hello", "--text", "--opt", "--world", "-h", "-w", "-hw", "-hh", "value", "--", "-", "");

// every argument list, long-named nodes
// @entry twice_long
VH_ENTRY(twice_long)
{
    using namespace one_mode;
    const auto r = one_mode::run();
    const auto m = read(r.args);
    if (m.dup) {
        VH_COVER("given twice");
        VH_ASSERT(r.o == vh::outcome::failed && got.calls == 0, "fails without a router call");
        VH_ASSERT(vh::ec == ar::error_code::argument_has_already_been_set, "already-been-set error");
        VH_ASSERT(vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, r.args[m.at].name), "the error carries the offending token");
    } else if (r.o == vh::outcome::failed) {
        VH_COVER("other failure");
        VH_ASSERT(vh::ec != ar::error_code::argument_has_already_been_set, "never reported for different nodes");
    } else VH_COVER("ok");
}

static int calls;
// any mixture of long and short forms
// @entry twice_mixed unroll=3 unroll_t=5 budget=60
VH_ENTRY(twice_mixed)
{
    calls = 0;
    vh::ec = {};
    vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto r = ar::root(vh::rec, arp::validation::default_validator,
                            ar::mode(ar::flag("hello"_S, "h"_S), ar::flag("world"_S, "w"_S), arp::router{[&](bool, bool) { ++calls; }}));
    const auto o = vh::run(r, std::move(copy));
    // which nodes the list names, in order, as long as it only consists of their names
    int h = 0, w = 0;
    for (const auto& a : args) {
        if (vh::same(a.name, "--hello") || vh::same(a.name, "-h")) ++h;
        else if (vh::same(a.name, "--world") || vh::same(a.name, "-w")) ++w;
        else if (a.name.size() == 3 && a.name[0] == '-' && (a.name[1] == 'h' || a.name[1] == 'w') && (a.name[2] == 'h' || a.name[2] == 'w')) { ++(a.name[1] == 'h' ? h : w); ++(a.name[2] == 'h' ? h : w); }
        else return;
        if (h > 1 || w > 1) break;
    }
    if (h > 1 || w > 1) {
        VH_COVER("given twice");
        VH_ASSERT(o == vh::outcome::failed && calls == 0, "fails without a router call");
        VH_ASSERT(vh::ec == ar::error_code::argument_has_already_been_set, "already-been-set error");
        VH_ASSERT(vh::ec_tokens.size() == 1, "one token in the error");
    } else {
        VH_COVER("each at most once");
        VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
    }
}

using sv = std::string_view;
template <std::size_t N>
static void judge(const opts::read_t& m, const opts::opt (&)[N], const tokens_t& a, std::size_t from, vh::outcome o, int n)
{
    if (m.what == opts::bad::twice) {
        VH_COVER("given twice");
        VH_ASSERT(o == vh::outcome::failed && n == 0, "fails without a router call");
        VH_ASSERT(vh::ec == ar::error_code::argument_has_already_been_set, "already-been-set error");
        VH_ASSERT(vh::ec_tokens.size() == 1, "one token in the error");
        const auto t = vh::ec_tokens[0].name;
        const auto g = a[from + m.at].name;
        VH_ASSERT(vh::same(t, g) || (g.size() >= t.size() && t.size() >= 3 && vh::same(g.substr(0, t.size()), t)), "naming what was given");
    } else if (o == vh::outcome::failed) {
        if (m.what != opts::bad::no_separator) VH_ASSERT(vh::ec != ar::error_code::argument_has_already_been_set, "never reported for different nodes");
        if (m.what == opts::bad::none) VH_COVER("other failure");
        VH_ASSERT(m.what != opts::bad::none, "different nodes are accepted");
    } else { VH_COVER("ok"); VH_ASSERT(m.what == opts::bad::none && n == 1, "accepted"); }
}
// value options: long and short forms, and joined values
// @entry twice_values
VH_ENTRY(twice_values)
{
    calls = 0;
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::arg<sv>("text"_S, "t"_S), ar::arg<sv>("num"_S, arp::value_separator<'='>), arp::router{[](sv, sv) { ++calls; }})), a);
    opts::opt e[] = {{"--text", "-t", {}, true}, {"--num", {}, "=", true}};
    const auto m = opts::read(a, e);
    judge(m, e, a, 0, o, calls);
}
// in a mode inside a mode
// @entry twice_nested
VH_ENTRY(twice_nested)
{
    calls = 0;
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode("aa"_S, ar::mode("bb"_S, ar::flag("hello"_S), ar::arg<sv>("text"_S), arp::router{[](bool, sv) { ++calls; }}))), a);
    if (a.size() < 2 || !vh::same(a[0].name, "aa") || !vh::same(a[1].name, "bb")) return;
    tokens_t rest;
    rest.assign(a.begin() + 2, a.end());
    opts::opt e[] = {{"--hello"}, {"--text", {}, {}, true}};
    const auto m = opts::read(rest, e);
    judge(m, e, a, 2, o, calls);
}
// a list option, with values up to its count
// @entry twice_list
VH_ENTRY(twice_list)
{
    calls = 0;
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::multi_arg<std::vector<sv>>("list"_S, arp::fixed_count<2>), ar::flag("hello"_S), arp::router{[](const std::vector<sv>&, bool) { ++calls; }})), a);
    bool list = false, flag = false;
    for (std::size_t i = 0; i < a.size();) {
        bool& which = vh::same(a[i].name, "--hello") ? flag : list;
        if (&which == &list && !vh::same(a[i].name, "--list")) return;
        if (&which == &list && i + 2 >= a.size()) return;
        if (which) {
            VH_COVER("given twice");
            VH_ASSERT(o == vh::outcome::failed && calls == 0, "fails without a router call");
            VH_ASSERT(vh::ec == ar::error_code::argument_has_already_been_set && vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, a[i].name), "already-been-set error for it");
            return;
        }
        i += &which == &list ? 3 : 1;
        which = true;
    }
    VH_COVER("ok");
    VH_ASSERT(o == vh::outcome::routed && calls == 1, "accepted");
}

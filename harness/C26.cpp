// C26: help output lists exactly the visible nodes, aligned and complete.
#include "help.hpp"
#include <arg_router/policy/colour_help_formatter.hpp>
VH_DICT("--help", "-h", "--verbose", "-v", "cmd", "--num", "-n", "sub", "deep", "--aa", "--bb", "help", "", "x", "--", "num", "-", "aa", "--verbos", "cmdx", "one");
namespace ard = ar::dependency;

struct on_t { bool verbose, num, cmd, aa, bb, cc; };

template <typename... H>
static auto big(on_t on, H... h)
{
    return ar::root(vh::rec, arp::validation::default_validator,
        ar::help("help"_S, "h"_S, "Display this text"_S, std::move(h)..., vh::capture),
        ar::flag("verbose"_S, "v"_S, "Says a lot about it"_S, arp::runtime_enable{on.verbose}, arp::router{[](bool) {}}),
        ar::mode("cmd"_S, "Runs the thing now"_S, arp::runtime_enable{on.cmd},
            ar::arg<int>("num"_S, "n"_S, "How many of them"_S, arp::value_separator<'='>, arp::min_max_value<1, 20>(), arp::runtime_enable{on.num}),
            ard::one_of(ar::flag("aa"_S, "First way"_S, arp::runtime_enable{on.aa}), ar::arg<std::string_view>("bb"_S, "Second way"_S, arp::runtime_enable{on.bb}),
                        ar::arg<int>("cc"_S, "Third way"_S, arp::runtime_enable{on.cc}), arp::default_value{false}),
            arp::router{[](int, std::variant<bool, std::string_view, int>) {}}),
        ar::mode("gr\u00f6sse"_S, ar::flag("q"_S), ar::positional_arg<std::vector<int>>("one"_S, "The \u00e9l\u00e9ments taken"_S), arp::router{[](bool, std::vector<int>) {}}));
}
static void expect_top(on_t on)
{
    vh::expect({{true, 1, "--help,-h", "Display this text"}, {on.verbose, 1, "--verbose,-v", "Says a lot about it"},
                {on.cmd, 1, "cmd", "Runs the thing now"}, {true, 1, "gr\u00f6sse", ""}});
}
static void expect_cmd(on_t on)
{
    const unsigned n = on.aa + on.bb + on.cc;   // bars join the members that are shown, if there is more than one
    const char* b = n < 2 ? "--bb <Value>" : !on.aa ? "\u250c --bb <Value>" : !on.cc ? "\u2514 --bb <Value>" : "\u251c --bb <Value>";
    // the common column is the one for all members, shown or not
    vh::expect({{true, 0, "cmd", "Runs the thing now"}, {on.num, 1, "--num,-n=<1-20>", "How many of them"}, {true, 1, "One of: ", ""},
                {on.aa, 2, n < 2 ? "--aa" : "\u250c --aa", "First way"}, {on.bb, 2, b, "Second way"}, {on.cc, 2, n < 2 ? "--cc <Value>" : "\u2514 --cc <Value>", "Third way"},
                {false, 2, "\u2514 --cc <Value>", ""}});
}
static on_t any_settings()
{
    const auto bit = [](const char* n) { return vh::any<unsigned char>(n, 0, 1) != 0; };
    on_t on{bit("verbose"), bit("num"), bit("cmd"), bit("aa"), bit("bb"), bit("cc")};
    return on;
}
static void all_shown(vh::outcome o)
{
    VH_ASSERT(o == vh::outcome::routed && vh::shown == 1, "the help text is delivered once");
    vh::compare();
}
static vh::outcome ask(const on_t& on, tokens_t args)
{
    const auto r = big(on);
    vh::fresh();
    return vh::run(r, std::move(args));
}
// @entry top
VH_ENTRY(top)
{
    auto on = on_t{true, true, true, true, true, true};
    on.verbose = vh::any<unsigned char>("verbose", 0, 1);
    on.cmd = vh::any<unsigned char>("cmd", 0, 1);
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const auto o = ask(on, tokens_t{{prefix_type::none, "--help"}});
    expect_top(on);
    all_shown(o);
}
// @entry below
VH_ENTRY(below)
{
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const auto on = on_t{true, true, true, true, true, true};
    const auto o = ask(on, tokens_t{{prefix_type::none, "-h"}, {prefix_type::none, "cmd"}});
    expect_cmd(on);
    all_shown(o);
}
// @entry settings
VH_ENTRY(settings)
{
    vh::columns = 0;
    auto on = any_settings();
    on.cmd = true;
    const auto o = ask(on, tokens_t{{prefix_type::none, "-h"}, {prefix_type::none, "cmd"}});
    expect_cmd(on);
    all_shown(o);
}
// @entry target
VH_ENTRY(target)
{
    vh::columns = 0;
    auto on = on_t{true, true, true, true, true, true};
    on.verbose = vh::any<unsigned char>("verbose", 0, 1);
    on.cmd = vh::any<unsigned char>("cmd", 0, 1);
    on.num = vh::any<unsigned char>("num", 0, 1);
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    if (args.empty() || !vh::same(args[0].name, "--help")) return;
    const auto copy = args;
    const auto o = ask(on, std::move(args));
    const auto is = [&](std::size_t i, std::string_view n) { return vh::same(copy[i].name, n); };
    const auto n = copy.size();
    std::size_t bad = 1;   // the token that names no visible node
    if (n == 1) {
        expect_top(on);
        all_shown(o);
        return;
    }
    if (is(1, "--help") || is(1, "-h")) {
        if (n == 2) { VH_COVER("help on help"); vh::expect({{true, 0, "--help,-h", "Display this text"}}); all_shown(o); return; }
        bad = 2;
    } else if (on.verbose && (is(1, "--verbose") || is(1, "-v"))) {
        if (n == 2) { VH_COVER("help on a flag"); vh::expect({{true, 0, "--verbose,-v", "Says a lot about it"}}); all_shown(o); return; }
        bad = 2;
    } else if (is(1, "gr\u00f6sse")) {
        if (n == 2) {
            VH_COVER("help on a mode");
            vh::expect({{true, 0, "gr\u00f6sse", ""}, {true, 1, "-q", ""}, {true, 1, "<one> [0,N]", "The \u00e9l\u00e9ments taken"}});
            all_shown(o);
            return;
        }
        if (is(2, "-q")) {
            if (n == 3) { vh::expect({{true, 0, "-q", ""}}); all_shown(o); return; }
            bad = 3;
        } else bad = 2;
    } else if (on.cmd && is(1, "cmd")) {
        if (n == 2) { expect_cmd(on); all_shown(o); return; }
        if (on.num && (is(2, "--num") || is(2, "-n"))) {
            if (n == 3) { VH_COVER("help on an option of a mode"); vh::expect({{true, 0, "--num,-n=<1-20>", "How many of them"}}); all_shown(o); return; }
            bad = 3;
        } else bad = 2;
    }
    VH_COVER("no such node");
    VH_ASSERT(o == vh::outcome::failed && vh::shown == 0, "a target that names no visible node is an error");
    VH_ASSERT(vh::ec == ar::error_code::unknown_argument && vh::ec_tokens.size() == 1, "the unknown-argument error");
    VH_ASSERT(vh::same(vh::ec_tokens[0].name, copy[bad].name), "naming the token");
}
// @entry methods
VH_ENTRY(methods)
{
    vh::columns = vh::any<unsigned>("columns", 0, 60);
    auto on = on_t{true, true, true, true, true, true};
    on.verbose = vh::any<unsigned char>("verbose", 0, 1);
    const auto r = big(on);
    vh::fresh();
    ar::ostringstream s;
    r.help(s);
    vh::record(s);
    expect_top(on);
    vh::compare();
}
// @entry compiled
VH_ENTRY(compiled)
{
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const auto on = on_t{true, true, true, true, true, true};
    const auto r = big(on);
    const auto& h = std::get<0>(r.children());
    using help_type = std::decay_t<decltype(h)>;
    using mode_type = std::decay_t<decltype(std::get<2>(r.children()))>;
    vh::fresh();
    ar::ostringstream s;
    if (vh::any<unsigned char>("mode", 0, 1)) {
        h.template generate_help<mode_type, help_type, true>(s);
        expect_cmd(on);
    } else {
        h.template generate_help<std::decay_t<decltype(r)>, help_type, false>(s);
        expect_top(on);
    }
    vh::record(s);
    vh::compare();
}
// texts around the entries; the entries of an unnamed mode are part of the top level
template <typename... H>
static void around(const char* before, const char* after, H... h)
{
    const bool f = vh::any<unsigned char>("flag", 0, 1), l = vh::any<unsigned char>("list", 0, 1), m = vh::any<unsigned char>("mode", 0, 1);
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const auto r = ar::root(vh::rec, arp::validation::default_validator, ar::help("help"_S, std::move(h)..., vh::capture),
        ar::mode(arp::runtime_enable{m}, ar::flag("f"_S, arp::description_t<ar::str<"Makes it so">>{}, arp::runtime_enable{f}),
            ard::alias_group(ar::counting_flag<int>("times"_S, "How often it is"_S), ar::arg<int>("count"_S, "As a number"_S, arp::runtime_enable{l}), arp::default_value{0}),
            ar::multi_arg<std::vector<int>>("list"_S, "The items"_S, arp::fixed_count<3>, arp::runtime_enable{l}),
            ar::positional_arg<std::vector<int>>("files"_S, arp::min_count<2>), arp::router{[](bool, int, std::vector<int>, std::vector<int>) {}}));
    vh::fresh();
    const auto o = vh::run(r, tokens_t{{prefix_type::none, "--help"}});
    vh::put(before);
    vh::expect({{true, 1, "--help", ""}, {m, 1, " ", ""}, {m && f, 2, "-f", "Makes it so"}, {m, 2, "Alias Group: ", ""},
                {m, 3, l ? "\u250c --times" : "--times", "How often it is"}, {m && l, 3, "\u2514 --count <Value>", "As a number"},
                {m && l, 2, "--list [3]", "The items"}, {m, 2, "<files> [2,N]", ""}});
    vh::put(after);
    all_shown(o);
}
// @entry unnamed
VH_ENTRY(unnamed)
{
    around("", "");
}
// @entry named_program
VH_ENTRY(named_program)
{
    around("prog\n\n", "", arp::program_name_t<ar::str<"prog">>{});
}
// @entry all_texts
VH_ENTRY(all_texts)
{
    around("prog v1\n\nIt does things.\n\n", "\nSee also.\n", arp::program_name_t<ar::str<"prog">>{}, arp::program_version_t<ar::str<"v1">>{},
           arp::program_intro_t<ar::str<"It does things.">>{}, arp::program_addendum_t<ar::str<"See also.">>{});
}
// @entry intro_only
VH_ENTRY(intro_only)
{
    around("It does things.\n\n", "", arp::program_intro_t<ar::str<"It does things.">>{});
}
// @entry addendum_only
VH_ENTRY(addendum_only)
{
    around("", "\nSee also.\n", arp::program_addendum_t<ar::str<"See also.">>{});
}
// modes in modes, all listed if so configured
template <typename... H>
static auto nested(bool b, bool c, H... h)
{
    return ar::root(vh::rec, arp::validation::default_validator, ar::help("help"_S, std::move(h)..., vh::capture),
        ar::mode("aa"_S, "Outer mode here"_S, ar::mode("bb"_S, "Inner mode there"_S, arp::runtime_enable{b}, ar::flag("cc"_S, "Some flag or other"_S, arp::runtime_enable{c}), arp::router{[](bool) {}})));
}
static void expect_all(bool b, bool c, std::size_t indent = 4, std::size_t least = 8)
{
    vh::expect({{true, 1, "--help", ""}, {true, 1, "aa", "Outer mode here"}, {b, 2, "bb", "Inner mode there"}, {b && c, 3, "--cc", "Some flag or other"}}, indent, least);
}
// @entry other_layout
VH_ENTRY(other_layout)
{
    const bool b = vh::any<unsigned char>("b", 0, 1), c = vh::any<unsigned char>("c", 0, 1);
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const auto r = nested(b, c, arp::flatten_help, arp::default_help_formatter_t<ar::traits::integral_constant<std::size_t{1}>, ar::traits::integral_constant<std::size_t{5}>>{});
    vh::fresh();
    const auto o = vh::run(r, tokens_t{{prefix_type::none, "--help"}});
    expect_all(b, c, 1, 5);
    all_shown(o);
}
// @entry flattened
VH_ENTRY(flattened)
{
    const bool b = vh::any<unsigned char>("b", 0, 1), c = vh::any<unsigned char>("c", 0, 1);
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const auto r = nested(b, c, arp::flatten_help);
    vh::fresh();
    const auto o = vh::run(r, tokens_t{{prefix_type::none, "--help"}});
    expect_all(b, c);
    all_shown(o);
}
// @entry inner
VH_ENTRY(inner)
{
    const bool b = vh::any<unsigned char>("b", 0, 1), c = vh::any<unsigned char>("c", 0, 1);
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const auto r = nested(b, c);
    tokens_t args{{prefix_type::none, "--help"}};
    const auto depth = vh::any<unsigned char>("depth", 0, 3);
    if (depth > 0) args.push_back({prefix_type::none, "aa"});
    if (depth > 1) args.push_back({prefix_type::none, "bb"});
    if (depth > 2) args.push_back({prefix_type::none, "--cc"});
    vh::fresh();
    const auto o = vh::run(r, std::move(args));
    if ((depth > 1 && !b) || (depth > 2 && !c)) { VH_ASSERT(o == vh::outcome::failed && vh::shown == 0 && vh::ec == ar::error_code::unknown_argument, "a target that names no visible node is an error"); return; }
    if (depth == 0) vh::expect({{true, 1, "--help", ""}, {true, 1, "aa", "Outer mode here"}});
    if (depth == 1) vh::expect({{true, 0, "aa", "Outer mode here"}, {b, 1, "bb", "Inner mode there"}, {b && c, 2, "--cc", "Some flag or other"}});
    if (depth == 2) vh::expect({{true, 0, "bb", "Inner mode there"}, {c, 1, "--cc", "Some flag or other"}});
    if (depth == 3) vh::expect({{true, 0, "--cc", "Some flag or other"}});
    all_shown(o);
}
// the coloured output is the same but for the colours
// @entry coloured
VH_ENTRY(coloured)
{
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const bool d = vh::any<unsigned char>("below", 0, 1);
    const auto on = on_t{true, true, true, true, true, true};
    const auto r = big(on, arp::colour_help_formatter);
    tokens_t args{{prefix_type::none, "-h"}};
    if (d) args.push_back({prefix_type::none, "cmd"});
    vh::fresh();
    const auto o = vh::run(r, std::move(args));
    if (d) expect_cmd(on);
    else expect_top(on);
    std::size_t n = 0;
    for (std::size_t i = 0; i < vh::n_written; ++i) {
        if (vh::written[i] == '\033') { while (i < vh::n_written && vh::written[i] != 'm') ++i; continue; }
        vh::written[n++] = vh::written[i];
    }
    vh::n_written = n;
    all_shown(o);
}

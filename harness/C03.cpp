// C03: exactly one router call after full consumption, or a parse_exception.
#include "one_mode.hpp"
#include "options.hpp"
VH_DICT("-t", "aa", "bb", "--num", "--num=7", "--num=", "--num=z", "--world", "--world=z", "z", "12", "--list", "a", "b", "--hello", "--text", "--opt", "value", "--", "-h", "-", "");

// @entry one_call
VH_ENTRY(one_call)
{
    using namespace one_mode;
    const auto r = one_mode::run();
    VH_ASSERT(r.o != vh::outcome::escaped, "no exception other than the configured parse_exception escapes");
    const auto m = read(r.args);
    if (r.o == vh::outcome::routed) {
        VH_COVER("routed");
        VH_ASSERT(got.calls == 1, "exactly one router call");
        VH_ASSERT(m.ok, "routed only if every argument is accounted for and validated");
        VH_ASSERT(r.args.size() == std::size_t(m.hello) + 2 * m.text + 2 * m.opt, "all arguments consumed");
    } else {
        VH_COVER("failed");
        VH_ASSERT(got.calls == 0, "no router call when parsing fails");
        VH_ASSERT(!m.ok, "an argument list with a meaning is not rejected");
    }
}

using sv = std::string_view;
static int calls, others;
static const auto last_byte = arp::custom_parser<int>{[](sv t) { return t.empty() ? 0 : static_cast<unsigned char>(t.back()); }};
static int last(sv t) { return t.empty() ? 0 : static_cast<unsigned char>(t[t.size() - 1]); }
static void start() { calls = others = 0; }
static void judge(bool ok, vh::outcome o)
{
    VH_ASSERT(o != vh::outcome::escaped, "no exception other than the configured parse_exception escapes");
    VH_ASSERT(others == 0, "no other router is called");
    if (ok) { VH_COVER("routed"); VH_ASSERT(o == vh::outcome::routed && calls == 1, "exactly one router call"); }
    else { VH_COVER("failed"); VH_ASSERT(o == vh::outcome::failed && calls == 0, "no router call when parsing fails"); }
}
// validation of one value fails before or after the others were given, or the others fail
// @entry validated
VH_ENTRY(validated)
{
    start();
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S), ar::arg<int>("num"_S, last_byte, arp::min_max_value<5, 70>(), arp::default_value{6}), ar::arg<sv>("text"_S, arp::required),
                 arp::router{[](bool, int, sv) { ++calls; }})), a);
    opts::opt e[] = {{"--hello"}, {"--num", {}, {}, true}, {"--text", {}, {}, true}};
    const auto m = opts::read(a, e);
    const bool in = !e[1].given || (last(e[1].v) >= 5 && last(e[1].v) <= 70);
    judge(m.what == opts::bad::none && e[2].given && in, o);
}
// two validated values, the later one wrong
// @entry two_validated
VH_ENTRY(two_validated)
{
    start();
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::arg<int>("num"_S, last_byte, arp::max_value<70>(), arp::value_separator<'='>), ar::arg<int>("world"_S, last_byte, arp::min_value<5>(), arp::required, arp::value_separator<'='>),
                 arp::router{[](int, int) { ++calls; }})), a);
    opts::opt e[] = {{"--num", {}, "=", true}, {"--world", {}, "=", true}};
    const auto m = opts::read(a, e);
    judge(m.what == opts::bad::none && e[1].given && last(e[1].v) >= 5 && (!e[0].given || last(e[0].v) <= 70), o);
}
// without a mode each top-level node has a router of its own
// @entry modeless
VH_ENTRY(modeless)
{
    start();
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::flag("hello"_S, arp::router{[](bool) { ++calls; }}), ar::arg<sv>("text"_S, arp::router{[](sv) { ++calls; }}),
        ar::arg<int>("num"_S, last_byte, arp::min_max_value<5, 70>(), arp::router{[](int) { ++calls; }}),
        ar::mode(ar::flag("world"_S), arp::router{[](bool) { ++calls; }})), a);   // (an absent flag is its false)
    opts::opt e[] = {{"--hello"}, {"--text", {}, {}, true}, {"--num", {}, {}, true}, {"--world"}};
    const auto m = opts::read(a, e);
    const int n = int(e[0].given) + e[1].given + e[2].given + e[3].given;
    judge(m.what == opts::bad::none && n <= 1 &&   // nothing at all is the anonymous mode's
          (!e[2].given || (last(e[2].v) >= 5 && last(e[2].v) <= 70)), o);
}
// of several modes one is routed
// @entry modes
VH_ENTRY(modes)
{
    start();
    tokens_t a;
    const int which = vh::any<unsigned char>("which", 0, 1);   // the one whose router counts
    const auto r = [which](int n) { return arp::router{[n, which](bool, int) { ++(n == which ? calls : others); }}; };
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode("aa"_S, ar::flag("hello"_S), ar::arg<int>("num"_S, last_byte, arp::min_value<5>()), r(0)),
        ar::mode("bb"_S, ar::flag("hello"_S), ar::arg<int>("num"_S, last_byte, arp::max_value<70>()), r(1))), a);
    if (a.empty()) { judge(false, o); return; }
    const bool x = vh::same(a[0].name, "aa"), y = vh::same(a[0].name, "bb");
    if (x || y) if ((y ? 1 : 0) != which) return;
    tokens_t rest;
    rest.assign(a.begin() + 1, a.end());
    opts::opt e[] = {{"--hello"}, {"--num", {}, {}, true}};
    const auto m = opts::read(rest, e);
    judge((x || y) && m.what == opts::bad::none && (!e[1].given ? y : x ? last(e[1].v) >= 5 : last(e[1].v) <= 70), o);   // (absent, the value validated is int{})
}
// positional nodes after an option: every argument is accounted for
// @entry positional
VH_ENTRY(positional)
{
    start();
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S), ar::positional_arg<sv>("one"_S, arp::fixed_count<1>, arp::required), ar::positional_arg<int>("two"_S, last_byte, arp::min_max_value<5, 70>(), arp::fixed_count<1>, arp::default_value{6}),
                 arp::router{[](bool, sv, int) { ++calls; }})), a);
    bool hello = false, one = false, two = false, ok = true;
    int v = 6;
    for (std::size_t i = 0; ok && i < a.size(); ++i) {
        if (vh::same(a[i].name, "--hello")) { ok = !hello; hello = true; }
        else if (!one) one = true;
        else if (!two) { two = true; v = last(a[i].name); }
        else ok = false;
    }
    judge(ok && one && v >= 5 && v <= 70, o);
}

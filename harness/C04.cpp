// C04: options deliver their values to the router independent of order.
#include "one_mode.hpp"
#include "options.hpp"
VH_DICT("-t", "-n", "--num", "--num=7", "--num=", "--num=a=b", "--world", "-w", "--text=v", "12", "--list", "a", "b", "--hello", "--text", "--opt", "value", "--", "-h", "-", "");

// every argument list: the router gets what the list means
// @entry values
VH_ENTRY(values)
{
    using namespace one_mode;
    const auto r = one_mode::run();
    const auto m = read(r.args);
    if (r.o != vh::outcome::routed) { VH_ASSERT(!m.ok, "a meaningful list is routed"); return; }
    VH_ASSERT(got.calls == 1 && m.ok, "routed lists are meaningful");
    if (m.hello) VH_COVER("flag given"); else VH_COVER("flag absent");
    VH_ASSERT(got.hello == m.hello, "flag: whether it was given");
    VH_ASSERT(vh::same(got.text, m.text_v), "value option: the token following its name");
    if (m.opt) { VH_COVER("option given"); VH_ASSERT(vh::same(got.opt, m.opt_v), "defaulted option: the token following its name"); }
    else { VH_COVER("option absent"); VH_ASSERT(vh::same(got.opt, dflt()), "absent option: its default"); }
}

namespace more
{
using sv = std::string_view;
using one_mode::dflt;
struct got_t { int calls; bool a, b, c; sv s, t; int i; };
static got_t got;
static const auto last_byte = arp::custom_parser<int>{[](sv t) { return t.empty() ? 0 : static_cast<unsigned char>(t.back()); }};
static int last(sv t) { return t.empty() ? 0 : static_cast<unsigned char>(t[t.size() - 1]); }
}
// values with short names, separators and parsers of their own, given in any order
// @entry forms
VH_ENTRY(forms)
{
    using namespace more;
    got = {};
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::arg<int>("num"_S, last_byte, arp::value_separator<'='>, arp::default_value{42}),
                 ar::arg<sv>("text"_S, "t"_S, arp::default_value{dflt()}), ar::flag("hello"_S),
                 arp::router{[](int i, sv t, bool h) { ++got.calls; got.i = i; got.t = t; got.a = h; }})), a);
    opts::opt e[] = {{"--num", {}, "=", true}, {"--text", "-t", {}, true}, {"--hello"}};
    const auto m = opts::read(a, e);
    if (m.what != opts::bad::none) { VH_COVER("meaningless"); VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "a meaningless list is rejected"); return; }
    VH_ASSERT(o == vh::outcome::routed && got.calls == 1, "a meaningful list is routed");
    VH_ASSERT(got.a == e[2].given, "flag: whether it was given");
    if (e[0].given) { VH_COVER("joined"); VH_ASSERT(got.i == last(e[0].v), "the conversion of what followed the separator"); } else VH_ASSERT(got.i == 42, "its default");
    if (e[1].given) { VH_COVER("followed"); VH_ASSERT(vh::same(got.t, e[1].v), "the token following its name"); } else VH_ASSERT(vh::same(got.t, dflt()), "its default (text)");
}
// three flags and no default: declaration order, absent values are false and empty
// @entry declared
VH_ENTRY(declared)
{
    using namespace more;
    got = {};
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("world"_S), ar::arg<sv>("text"_S), ar::flag("hello"_S), ar::flag("num"_S),
                 arp::router{[](bool x, sv t, bool y, bool z) { ++got.calls; got.a = x; got.t = t; got.b = y; got.c = z; }})), a);
    opts::opt e[] = {{"--world"}, {"--text", {}, {}, true}, {"--hello"}, {"--num"}};
    const auto m = opts::read(a, e);
    if (m.what != opts::bad::none) { VH_COVER("meaningless"); VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "a meaningless list is rejected"); return; }
    VH_COVER("meaningful");
    VH_ASSERT(o == vh::outcome::routed && got.calls == 1, "a meaningful list is routed");
    VH_ASSERT(got.a == e[0].given && got.b == e[2].given && got.c == e[3].given, "each flag: whether it was given");
    if (e[1].given) VH_ASSERT(vh::same(got.t, e[1].v), "the token following its name"); else VH_ASSERT(got.t.empty(), "nothing");
}
// named mode, with other modes before and after
// @entry in_mode
VH_ENTRY(in_mode)
{
    using namespace more;
    got = {};
    tokens_t a;
    const auto two = [](bool h, sv t) { ++got.calls; got.a = h; got.t = t; };
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode("aa"_S, ar::flag("hello"_S), arp::router{[](bool) { got.calls += 100; }}),
        ar::mode("bb"_S, ar::flag("hello"_S), ar::arg<sv>("text"_S, arp::default_value{dflt()}), arp::router{two})), a);
    if (a.empty() || !vh::same(a[0].name, "bb")) { VH_ASSERT(got.calls == 0 || got.calls == 100, "not this mode's router"); VH_COVER("elsewhere"); return; }
    tokens_t rest;
    rest.assign(a.begin() + 1, a.end());
    opts::opt e[] = {{"--hello"}, {"--text", {}, {}, true}};
    const auto m = opts::read(rest, e);
    if (m.what != opts::bad::none) { VH_COVER("meaningless"); VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "a meaningless list is rejected"); return; }
    VH_COVER("meaningful");
    VH_ASSERT(o == vh::outcome::routed && got.calls == 1, "a meaningful list is routed");
    VH_ASSERT(got.a == e[0].given, "the flag: whether it was given");
    if (e[1].given) VH_ASSERT(vh::same(got.t, e[1].v), "the token following its name"); else VH_ASSERT(vh::same(got.t, dflt()), "its default");
}
// a mode-less root: the one node given gets its value
// @entry modeless
VH_ENTRY(modeless)
{
    using namespace more;
    got = {};
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::flag("hello"_S, arp::router{[](bool h) { ++got.calls; got.a = h; }}),
        ar::arg<sv>("text"_S, "t"_S, arp::router{[](sv t) { got.calls += 10; got.t = t; }}),
        ar::arg<int>("num"_S, arp::value_separator<'='>, last_byte, arp::router{[](int i) { got.calls += 100; got.i = i; }})), a);
    if (o == vh::outcome::routed) VH_COVER("routed"); else VH_COVER("rejected");
    opts::opt e[] = {{"--hello"}, {"--text", "-t", {}, true}, {"--num", {}, "=", true}};
    const auto m = opts::read(a, e);
    const int n = int(e[0].given) + e[1].given + e[2].given;
    if (m.what != opts::bad::none || n != 1) { VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "exactly one node can be given"); return; }
    VH_ASSERT(o == vh::outcome::routed && got.calls == (e[0].given ? 1 : e[1].given ? 10 : 100), "its router is called");
    if (e[0].given) VH_ASSERT(got.a, "the flag was given");
    if (e[1].given) VH_ASSERT(vh::same(got.t, e[1].v), "the token following its name");
    if (e[2].given) VH_ASSERT(got.i == last(e[2].v), "the conversion of what followed the separator");
}
// a list option among others: all of its values, in order
// @entry list
VH_ENTRY(list)
{
    using namespace more;
    static std::size_t n; static sv first, second; static bool h;
    n = 0; got = {};
    tokens_t a;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::multi_arg<std::vector<sv>>("list"_S, arp::fixed_count<2>), ar::flag("hello"_S),
                 arp::router{[](const std::vector<sv>& v, bool x) { ++got.calls; n = v.size(); if (n > 1) { first = v[0]; second = v[1]; } h = x; }})), a);
    const auto is = [&](std::size_t i, sv s) { return i < a.size() && vh::same(a[i].name, s); };
    bool flag = false, list = false, ok = true;
    std::size_t at = 0;
    for (std::size_t i = 0; i < a.size();) {
        if (is(i, "--hello") && !flag) { flag = true; ++i; }
        else if (is(i, "--list") && !list && i + 2 < a.size()) { list = true; at = i + 1; i += 3; }
        else { ok = false; break; }
    }
    if (!ok) { VH_COVER("meaningless"); VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "a meaningless list is rejected"); return; }
    VH_COVER("meaningful");
    VH_ASSERT(o == vh::outcome::routed && got.calls == 1 && h == flag, "a meaningful list is routed");
    VH_ASSERT(n == (list ? 2 : 0), "all of its values");
    if (list) VH_ASSERT(vh::same(first, a[at].name) && vh::same(second, a[at + 1].name), "in order");
}

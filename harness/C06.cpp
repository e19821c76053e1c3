// C06: required and defaulted nodes are resolved when missing.
#include "one_mode.hpp"
#include "options.hpp"
VH_DICT("-t", "aa", "bb", "--num=7", "--num=", "--num", "--list", "--verb", "a", "b", "--hello", "--text", "--opt", "value", "--", "-h", "-", "");

// @entry missing
VH_ENTRY(missing)
{
    using namespace one_mode;
    const auto r = one_mode::run();
    const auto m = read(r.args);
    if (!m.ok && !m.has_at) {
        VH_COVER("required node missing");
        VH_ASSERT(r.o == vh::outcome::failed && got.calls == 0, "a missing required node fails without a router call");
        VH_ASSERT(vh::ec == ar::error_code::missing_required_argument, "missing-required-argument error");
        VH_ASSERT(vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, "text") && vh::ec_tokens[0].prefix == prefix_type::long_, "the error names the node");
    }
    if (r.o == vh::outcome::failed) VH_ASSERT(vh::ec != ar::error_code::missing_required_argument || (!m.ok && !m.has_at), "missing-required-argument only when it is missing");
    if (r.o == vh::outcome::routed) {
        VH_ASSERT(m.text, "routed only with the required node");
        if (m.opt) { VH_COVER("given"); VH_ASSERT(vh::same(got.opt, m.opt_v), "a given node never receives its default"); }
        else { VH_COVER("defaulted"); VH_ASSERT(vh::same(got.opt, dflt()), "an absent node receives exactly its default"); }
    }
}

using sv = std::string_view;
static int calls;
static const char dflt_chars[] = "dflt";
static sv dflt_text() { return {dflt_chars, 4}; }
static void start() { calls = 0; }
static void missing(vh::outcome o, bool named)
{
    VH_COVER("required node missing");
    VH_ASSERT(o == vh::outcome::failed && calls == 0, "a missing required node fails without a router call");
    VH_ASSERT(vh::ec == ar::error_code::missing_required_argument && vh::ec_tokens.size() == 1, "missing-required-argument error");
    VH_ASSERT(named, "the error names a missing node");
}
static bool names(sv n) { return vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, n); }
// several required nodes
// @entry several
VH_ENTRY(several)
{
    start();
    tokens_t a;
    static sv x, y; static bool h;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode("aa"_S, ar::arg<sv>("text"_S, "t"_S, arp::required), ar::flag("hello"_S), ar::arg<sv>("num"_S, arp::required, arp::value_separator<'='>),
                 arp::router{[](sv t, bool b, sv n) { ++calls; x = t; h = b; y = n; }})), a);
    if (a.empty() || !vh::same(a[0].name, "aa")) return;
    tokens_t rest;
    rest.assign(a.begin() + 1, a.end());
    opts::opt e[] = {{"--text", "-t", {}, true}, {"--hello"}, {"--num", {}, "=", true}};
    const auto m = opts::read(rest, e);
    if (m.what != opts::bad::none) { VH_ASSERT(o == vh::outcome::failed && vh::ec != ar::error_code::missing_required_argument, "another error"); return; }
    if (!e[0].given || !e[2].given) { missing(o, (!e[0].given && names("text")) || (!e[2].given && names("num"))); return; }
    VH_COVER("given");
    VH_ASSERT(o == vh::outcome::routed && calls == 1 && vh::same(x, e[0].v) && vh::same(y, e[2].v) && h == e[1].given, "given nodes");
}
// defaults of several types
// @entry defaults
VH_ENTRY(defaults)
{
    start();
    tokens_t a;
    static int i; static sv t; static bool f;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::arg<int>("num"_S, arp::custom_parser<int>{[](sv v) { return v.empty() ? 0 : static_cast<unsigned char>(v.back()); }}, arp::min_value<-9>(), arp::default_value{-7}),
                 ar::arg<sv>("text"_S, arp::default_value{dflt_text()}), ar::flag("hello"_S),
                 arp::router{[](int n, sv s, bool b) { ++calls; i = n; t = s; f = b; }})), a);
    opts::opt e[] = {{"--num", {}, {}, true}, {"--text", {}, {}, true}, {"--hello"}};
    const auto m = opts::read(a, e);
    if (m.what != opts::bad::none) { VH_ASSERT(o == vh::outcome::failed && calls == 0, "meaningless"); return; }
    VH_ASSERT(o == vh::outcome::routed && calls == 1, "a meaningful list is routed");
    if (e[0].given) { VH_COVER("given"); VH_ASSERT(i == (e[0].v.empty() ? 0 : static_cast<unsigned char>(e[0].v[e[0].v.size() - 1])), "a given node never receives its default"); }
    else { VH_COVER("defaulted"); VH_ASSERT(i == -7, "an absent node receives exactly its default"); }
    if (e[1].given) VH_ASSERT(vh::same(t, e[1].v), "a given node never receives its default (text)"); else VH_ASSERT(vh::same(t, dflt_text()), "an absent node receives exactly its default (text)");
    VH_ASSERT(f == e[2].given, "an absent flag is false");
}
// required or defaulted lists
// @entry lists
VH_ENTRY(lists)
{
    start();
    tokens_t a;
    static std::size_t n, k; static sv v0, v1, w0;
    n = k = 0;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::multi_arg<std::vector<sv>>("list"_S, arp::fixed_count<2>, arp::required), ar::multi_arg<std::vector<sv>>("text"_S, arp::fixed_count<2>, arp::default_value{std::vector<sv>{dflt_text()}}),
                 arp::router{[](const std::vector<sv>& v, const std::vector<sv>& w) { ++calls; n = v.size(); k = w.size(); if (n > 1) { v0 = v[0]; v1 = v[1]; } if (k > 0) w0 = w[0]; }})), a);
    std::size_t l = 0, t = 0;   // where their values are
    for (std::size_t i = 0; i < a.size();) {
        if (vh::same(a[i].name, "--list") && !l && i + 2 < a.size()) { l = i + 1; i += 3; }
        else if (vh::same(a[i].name, "--text") && !t && i + 2 < a.size()) { t = i + 1; i += 3; }
        else { VH_ASSERT(o == vh::outcome::failed && calls == 0 && vh::ec != ar::error_code::missing_required_argument, "another error"); return; }
    }
    if (!l) { missing(o, names("list")); return; }
    VH_ASSERT(o == vh::outcome::routed && calls == 1 && n == 2 && vh::same(v0, a[l].name) && vh::same(v1, a[l + 1].name), "the required list");
    VH_ASSERT(k == (t ? 2 : 1), "its values");
    if (t) { VH_COVER("given"); VH_ASSERT(vh::same(w0, a[t].name), "a given list never receives its default"); }
    else { VH_COVER("defaulted"); VH_ASSERT(vh::same(w0, dflt_text()), "an absent list receives exactly its default"); }
}
// positional nodes
// @entry positional
VH_ENTRY(positional)
{
    start();
    tokens_t a;
    static sv x, y;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::positional_arg<sv>("one"_S, arp::fixed_count<1>, arp::required), ar::positional_arg<sv>("two"_S, arp::fixed_count<1>, arp::default_value{dflt_text()}),
                 arp::router{[](sv p, sv q) { ++calls; x = p; y = q; }})), a);
    if (a.empty()) { missing(o, names("one")); return; }
    if (a.size() > 2) { VH_ASSERT(o == vh::outcome::failed && calls == 0, "too many"); return; }
    VH_ASSERT(o == vh::outcome::routed && calls == 1 && vh::same(x, a[0].name), "the first");
    if (a.size() == 2) { VH_COVER("given"); VH_ASSERT(vh::same(y, a[1].name), "a given node never receives its default"); }
    else { VH_COVER("defaulted"); VH_ASSERT(vh::same(y, dflt_text()), "an absent node receives exactly its default"); }
}
// counting flags
// @entry counts unroll=4 unroll_t=6
VH_ENTRY(counts)
{
    start();
    tokens_t a;
    static int c, d;
    const auto o = opts::any_list(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::counting_flag<int>("verb"_S, arp::default_value{7}), ar::counting_flag<int>("num"_S), ar::arg<sv>("text"_S, arp::required),
                 arp::router{[](int i, int j, sv) { ++calls; c = i; d = j; }})), a);
    if (a.empty()) { missing(o, names("text")); return; }
    if (!vh::same(a[0].name, "--text") || a.size() < 2) return;
    if (a.size() == 2) { VH_COVER("defaulted"); VH_ASSERT(o == vh::outcome::routed && calls == 1 && c == 7 && d == 0, "absent nodes receive exactly their defaults"); return; }
    if (a.size() > 3 || !(vh::same(a[2].name, "--verb") || vh::same(a[2].name, "--num"))) return;
    VH_COVER("given");
    const bool v = vh::same(a[2].name, "--verb");
    VH_ASSERT(o == vh::outcome::routed && calls == 1 && (v ? c == 1 : c == 7) && d == (v ? 0 : 1), "the others still do");
}

// C16: at most one member of a one-of group can be given.
#include "node.hpp"
#include <variant>
VH_DICT("--hello", "--text", "--num", "--world", "v", "w", "", "--", "-h", "--count");
namespace ard = ar::dependency;

struct num_t { std::string_view t; };
using v_t = std::variant<bool, std::string_view, num_t>;
struct got_t { int calls; std::size_t index; bool b, w; std::string_view t, n; };
static got_t got;
static void routed(const v_t& v, bool w)
{
    ++got.calls; got.index = v.index(); got.w = w;
    if (v.index() == 0) got.b = std::get<0>(v);
    if (v.index() == 1) got.t = std::get<1>(v);
    if (v.index() == 2) got.n = std::get<2>(v).t;
}
template <typename P>
static auto tree(P p)
{
    return ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ard::one_of(ar::flag("hello"_S), ar::arg<std::string_view>("text"_S),
                             ar::arg<num_t>("num"_S, arp::custom_parser<num_t>{[](std::string_view t) { return num_t{t}; }}), p),
                 ar::flag("world"_S), arp::router{[](v_t v, bool w) { routed(v, w); }}));
}
// what a list says about the group
struct meaning { bool ok = false, two_kinds = false, twice = false; int kind = -1; bool w = false; std::string_view v; };
static meaning read(const tokens_t& a)
{
    meaning m;
    for (std::size_t i = 0; i < a.size(); ++i) {
        const auto t = a[i].name;
        const int k = vh::same(t, "--hello") ? 0 : vh::same(t, "--text") ? 1 : vh::same(t, "--num") ? 2 : -1;
        if (k < 0) {
            if (!vh::same(t, "--world") || m.w) return m;
            m.w = true;
            continue;
        }
        if (k > 0 && i + 1 >= a.size()) { m.two_kinds = m.kind >= 0 && m.kind != k; return m; }
        if (m.kind >= 0) { (m.kind != k ? m.two_kinds : m.twice) = true; return m; }
        m.kind = k;
        if (k > 0) m.v = a[++i].name;
    }
    m.ok = true;
    return m;
}
static void judge(const meaning& m, vh::outcome o, bool required)
{
    if (m.two_kinds) {
        VH_ASSERT(o == vh::outcome::failed && got.calls == 0 && vh::ec == ar::error_code::one_of_selected_type_mismatch, "two kinds: the one-of mismatch error");
    } else if (m.twice) {
        VH_ASSERT(o == vh::outcome::failed && got.calls == 0 && vh::ec == ar::error_code::argument_has_already_been_set, "the same member twice: already set");
    } else if (!m.ok) {
        VH_ASSERT(o == vh::outcome::failed && got.calls == 0 && vh::ec != ar::error_code::one_of_selected_type_mismatch, "another error");
    } else if (m.kind < 0) {
        if (required) VH_ASSERT(o == vh::outcome::failed && got.calls == 0 && vh::ec == ar::error_code::missing_required_argument, "none given: required");
        else VH_ASSERT(o == vh::outcome::routed && got.calls == 1 && got.index == 1 && vh::same(got.t, "dflt") && got.w == m.w, "none given: default");
    } else {
        VH_ASSERT(o == vh::outcome::routed && got.calls == 1 && got.w == m.w, "one given: accepted");
        VH_ASSERT(got.index == static_cast<std::size_t>(m.kind), "the kind of the member given");
        if (m.kind == 0) VH_ASSERT(got.b, "its value (flag)");
        if (m.kind == 1) VH_ASSERT(vh::same(got.t, m.v), "its value");
        if (m.kind == 2) VH_ASSERT(vh::same(got.n, m.v), "its value (custom type)");
    }
}
template <typename Root>
static meaning parse(const Root& r, bool required)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(r, std::move(copy));
    const auto m = read(args);
    judge(m, o, required);
    return m;
}
// @entry required
VH_ENTRY(required)
{
    const auto m = parse(tree(arp::required), true);
    if (m.two_kinds) VH_COVER("two kinds");
    if (m.twice) VH_COVER("twice");
    if (m.ok && m.kind < 0) VH_COVER("none");
    if (m.ok && m.kind == 2) VH_COVER("one");
}
// @entry defaulted
VH_ENTRY(defaulted)
{
    const auto m = parse(tree(arp::default_value{std::string_view{"dflt"}}), false);
    if (m.two_kinds) VH_COVER("two kinds");
    if (m.ok && m.kind < 0) VH_COVER("none");
    if (m.ok && m.kind == 1) VH_COVER("one");
}
// a second parse by the same root is judged on its own arguments: the first one selects each member, or fails, or none
// @entry history
VH_ENTRY(history)
{
    const auto r = tree(arp::default_value{std::string_view{"dflt"}});
    const auto first = vh::any<std::uint8_t>("first", 0, 4);
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t f;
    const auto add = [&](std::string_view s) { f.push_back({prefix_type::none, s}); };
    if (first == 0) add("--hello");
    if (first == 1) { add("--text"); add("v"); }
    if (first == 2) { add("--num"); add("v"); }
    if (first == 3) { add("--hello"); add("--text"); add("v"); }   // fails
    if (first == 4) add("--world");
    (void)vh::run(r, std::move(f));
    const auto m = parse(r, false);
    if (m.ok && m.kind == 1) VH_COVER("one");
    if (m.two_kinds) VH_COVER("two kinds");
}

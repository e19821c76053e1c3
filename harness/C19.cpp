// C19: a node that does not match leaves the arguments untouched; one that does removes precisely its own tokens.
#include "node.hpp"
VH_DICT_TOKENS("--hello", "hello", "a", "b", "-c", "--", "", "-h", "h", "--hello=", "--hello=v", "hello=v", "-h=v", "--num", "--foo", "cmd", "--hello=v=w");

// the first token names a node with this long and/or short name
static bool names(const vh::offered& o, std::string_view l, std::string_view s)
{
    if (o.n() == 0) return false;
    if (!l.empty() && vh::is_long(o.before[0], l)) return true;
    return !s.empty() && vh::is_short(o.before[0], s);
}
static void not_its_business(const vh::offered& o)
{
    VH_COVER("not matched");
    VH_ASSERT(!o.matched, "a list that does not name the node is not matched");
    VH_ASSERT(!o.threw, "and raises no error");
    o.untouched("and is left untouched");
}
template <typename Node>
static void named(const Node& node, std::string_view l, std::string_view s, std::size_t count)
{
    vh::offered o;
    vh::offer(o, node);
    if (!names(o, l, s)) return not_its_business(o);
    if (o.threw) { VH_COVER("error"); VH_ASSERT(o.n() <= count, "an error only when its values are missing"); o.untouched("an error leaves the list untouched"); return; }
    VH_COVER("matched");
    VH_ASSERT(o.matched, "matched");
    o.took(1, count, "its own values");
    o.left(1 + count, "the rest stays in order");
}
// @entry flag_long
VH_ENTRY(flag_long)
{
    VH_COVER("error");
    named(ar::flag("hello"_S), "--hello", "", 0);
}
// @entry arg_both
VH_ENTRY(arg_both)
{
    named(ar::arg<std::string_view>("hello"_S, "h"_S), "--hello", "-h", 1);
}
// @entry arg_short
VH_ENTRY(arg_short)
{
    named(ar::arg<std::string_view>("h"_S), "", "-h", 1);
}
// @entry fixed
VH_ENTRY(fixed)
{
    named(ar::multi_arg<ar::vector<std::string_view>>("hello"_S, arp::fixed_count<2>), "--hello", "", 2);
}
// @entry counting
VH_ENTRY(counting)
{
    VH_COVER("error");
    named(ar::counting_flag<int>("hello"_S), "--hello", "", 0);
}
// @entry forwarding
VH_ENTRY(forwarding)
{
    VH_COVER("error");
    const auto node = ar::forwarding_arg("--"_S);
    vh::offered o;
    vh::offer(o, node);
    if (o.n() == 0 || o.before[0].prefix != prefix_type::none || !vh::same(o.before[0].name, "--")) return not_its_business(o);
    VH_COVER("matched");
    VH_ASSERT(o.matched && !o.threw, "matched");
    o.took(1, o.n() - 1, "everything after its name");
    o.left(o.n(), "nothing is left");
}
// The caller refuses the node: nothing happens to the list either way.
// @entry refused
VH_ENTRY(refused)
{
    vh::offered o;
    __v_tokens("args", vh::max_tokens, &o.before);
    o.after = o.before;
    const auto node = ar::arg<std::string_view>("hello"_S, "h"_S);
    const auto refuse = [](const auto&...) { return false; };
    try {
        o.matched = node.pre_parse(ar::parsing::pre_parse_data{o.after, refuse}).has_value();
    } catch (ar::multi_lang_exception&) {
        o.threw = true;
    }
    VH_COVER("refused");
    VH_ASSERT(!o.matched && !o.threw, "a refused node does not match");
    o.untouched("a refused node leaves the list untouched");
}
// A transformation by a policy is undone when the node is not matched.
// @entry separated
VH_ENTRY(separated)
{
    vh::offered o;
    vh::offer(o, ar::arg<std::string_view>("hello"_S, arp::value_separator<'='>));
    if (o.n() == 0) return not_its_business(o);
    const auto& t = o.before[0];
    const auto full = t.prefix == prefix_type::none;
    if (t.prefix == prefix_type::short_) return not_its_business(o);
    const auto label = full ? std::string_view{"--hello"} : std::string_view{"hello"};
    if (vh::same(t.name, label)) {
        VH_COVER("bare name");
        VH_ASSERT(o.threw && o.ec == ar::error_code::missing_value_separator, "the bare name is an error of the node");
        o.untouched("and leaves the list untouched");
        return;
    }
    const auto n = label.size();
    if (t.name.size() < n + 2 || !vh::same(t.name.substr(0, n), label) || t.name[n] != '=') return not_its_business(o);
    VH_COVER("matched");
    VH_ASSERT(o.matched && !o.threw, "matched");
    VH_ASSERT(o.got.size() == 1 && o.got[0].prefix == prefix_type::none && o.got[0].name.data() == t.name.data() + n + 1 && o.got[0].name.size() == t.name.size() - n - 1,
              "the value is the text after the first separator");
    o.left(1, "only its own token is removed");
}
// Too many or too few tokens for a positional node are reported without touching the list.
// @entry positional
VH_ENTRY(positional)
{
    vh::offered o;
    vh::offer(o, ar::positional_arg<ar::vector<std::string_view>>("pos"_S, arp::min_max_count<2, 3>));
    if (o.n() == 0) return;
    if (o.n() < 2) { VH_COVER("error"); VH_ASSERT(o.threw && !o.matched, "too few"); o.untouched("an error leaves the list untouched"); return; }
    VH_COVER("matched");
    VH_ASSERT(o.matched && !o.threw, "matched");
    const auto n = o.n() < 3 ? o.n() : 3;
    o.took(0, n, "its own values");
    o.left(n, "the rest stays in order");
}
// @entry disabled
VH_ENTRY(disabled)
{
    vh::offered o;
    vh::offer(o, ar::arg<std::string_view>("hello"_S, "h"_S, arp::runtime_enable{false}), ar::flag("p"_S));
    not_its_business(o);
}
// Nodes whose policies need their mode: offered through it.
template <typename Mode>
static void in_mode(vh::offered& o, const Mode& mode)
{
    __v_tokens("args", vh::max_tokens, &o.before);
    o.after = o.before;
    try {
        auto target = ar::parsing::parse_target{mode};
        const auto yes = [](const auto&...) { return true; };
        auto r = std::get<0>(mode.children()).pre_parse(ar::parsing::pre_parse_data{o.after, target, yes}, mode);
        o.matched = r.has_value();
        if (r) o.got = r->tokens();
    } catch (ar::multi_lang_exception& e) {
        o.threw = true;
        o.ec = e.ec();
        o.ec_tokens = e.tokens();
    }
}
// @entry dependent
VH_ENTRY(dependent)
{
    vh::offered o;
    in_mode(o, ar::mode(ar::arg<std::string_view>("hello"_S, "h"_S, arp::dependent(arp::long_name<AR_STRING("num")>)), ar::flag("num"_S), arp::router{[](std::string_view, bool) {}}));
    if (!names(o, "--hello", "-h")) return not_its_business(o);
    VH_COVER("error");
    VH_ASSERT(o.threw, "its dependency or its value is missing");
    if (o.n() > 1) VH_ASSERT(o.ec == ar::error_code::dependent_argument_missing, "its dependency is missing");
    o.untouched("an error leaves the list untouched");
}
// @entry alias
VH_ENTRY(alias)
{
    vh::offered o;
    in_mode(o, ar::mode(ar::arg<std::string_view>("hello"_S, "h"_S, arp::alias(arp::long_name<AR_STRING("num")>, arp::long_name<AR_STRING("foo")>)), ar::arg<std::string_view>("num"_S), ar::arg<std::string_view>("foo"_S),
                        arp::router{[](std::string_view, std::string_view) {}}));
    if (!names(o, "--hello", "-h")) return not_its_business(o);
    if (o.threw) { VH_COVER("error"); VH_ASSERT(o.n() == 1, "an error only when its value is missing"); o.untouched("an error leaves the list untouched"); return; }
    VH_COVER("matched");
    VH_ASSERT(o.matched, "matched");
    o.left(2, "its name and value are removed, the rest stays in order");
}
// @entry one_of
VH_ENTRY(one_of)
{
    vh::offered o;
    in_mode(o, ar::mode(ar::dependency::one_of(ar::arg<std::string_view>("hello"_S), ar::flag("num"_S), arp::required), arp::router{[](std::variant<std::string_view, bool>) {}}));
    const bool h = names(o, "--hello", ""), n = names(o, "--num", "");
    if (!h && !n) return not_its_business(o);
    if (o.threw) { VH_COVER("error"); VH_ASSERT(h && o.n() == 1, "an error only when its value is missing"); o.untouched("an error leaves the list untouched"); return; }
    VH_COVER("matched");
    VH_ASSERT(o.matched, "matched");
    o.left(h ? 2 : 1, "its own tokens are removed, the rest stays in order");
}
// @entry alias_group
VH_ENTRY(alias_group)
{
    vh::offered o;
    in_mode(o, ar::mode(ar::dependency::alias_group(ar::arg<std::string_view>("hello"_S), ar::arg<std::string_view>("num"_S), arp::required), arp::router{[](std::string_view) {}}));
    if (!names(o, "--hello", "") && !names(o, "--num", "")) return not_its_business(o);
    if (o.threw) { VH_COVER("error"); VH_ASSERT(o.n() == 1, "an error only when its value is missing"); o.untouched("an error leaves the list untouched"); return; }
    VH_COVER("matched");
    VH_ASSERT(o.matched, "matched");
    o.left(2, "its name and value are removed, the rest stays in order");
}
// @entry mode
VH_ENTRY(mode)
{
    vh::offered o;
    vh::offer(o, ar::mode("cmd"_S, ar::flag("hello"_S), arp::router{[](bool) {}}));
    if (o.n() == 0 || o.before[0].prefix != prefix_type::none || !vh::same(o.before[0].name, "cmd")) return not_its_business(o);
    VH_COVER("matched");
    VH_ASSERT(o.matched || o.threw, "matched, or its own arguments are wrong");
}

// C22: the suggested node has minimal distance to the unknown argument (distances by contract, any function of the two texts).
#define VH_REAL_SUGGESTION
#include "node.hpp"
VH_DICT_TOKENS("hello", "h", "--hello", "-h", "num", "cmd", "", "txt", "worl");
namespace u8 = ar::utility::utf8;

struct name_t { std::string_view mode; prefix_type prefix; std::string_view name, outer{}; };
template <typename Node>
static void suggest(const Node& node, const std::vector<name_t>& names)
{
    tokens_t args;
    __v_tokens("args", vh::max_tokens, &args);
    if (args.empty()) return;
    auto t = args[0];
    const auto r = u8::closest_matching_child_node(node, t);
    if (t.prefix == prefix_type::none) t = ar::parsing::get_token_type(t.name);
    if (names.size() == 0) { VH_ASSERT(r.empty(), "nothing to suggest"); return; }
    VH_COVER("suggested");
    VH_ASSERT(r.size() >= 1 && r.size() <= 3, "a node and its modes");
    bool known = false;
    std::size_t score = 0;
    for (const auto& n : names) {
        if (r[0].prefix == n.prefix && vh::same(r[0].name, n.name)) {
            if (r.size() == 1 + std::size_t(!n.mode.empty()) + std::size_t(!n.outer.empty()) && (n.mode.empty() || vh::same(r[1].name, n.mode)) && (n.outer.empty() || vh::same(r[2].name, n.outer))) {
                known = true;
                score = u8::levenshtein_distance(t.name, n.name);
            }
        }
    }
    VH_ASSERT(known, "the suggestion is an enabled node of the tree");
    for (const auto& n : names) VH_ASSERT(score <= u8::levenshtein_distance(t.name, n.name), "no node has a smaller distance");
}
static const auto yes = arp::router{[](bool) {}};
static const auto txt = arp::router{[](std::string_view) {}};
// the node's own text of a name (distances are by contract functions of the texts, told apart by address)
#define LONG(node, i) std::get<i>((node).children()).long_name()
#define SHORT(node, i) std::get<i>((node).children()).short_name()
// @entry in_mode
VH_ENTRY(in_mode)
{
    const auto m = ar::mode(ar::arg<std::string_view>("hello"_S, "h"_S), ar::flag("world"_S), ar::arg<std::string_view>("t"_S), ar::positional_arg<std::string_view>("pos"_S, arp::fixed_count<1>),
                            arp::router{[](std::string_view, bool, std::string_view, std::string_view) {}});
    suggest(m, {{"", prefix_type::long_, LONG(m, 0)}, {"", prefix_type::short_, SHORT(m, 0)}, {"", prefix_type::long_, LONG(m, 1)}, {"", prefix_type::short_, SHORT(m, 2)}});
}
// @entry in_root
VH_ENTRY(in_root)
{
    const auto r = ar::root(vh::rec, arp::validation::default_validator, ar::flag("hello"_S, yes), ar::mode("cmd"_S, ar::flag("num"_S), yes), ar::arg<std::string_view>("txt"_S, txt));
    const auto& m = std::get<1>(r.children());
    suggest(r, {{"", prefix_type::long_, LONG(r, 0)}, {"", prefix_type::none, m.none_name()}, {"cmd", prefix_type::long_, LONG(m, 0)}, {"", prefix_type::long_, LONG(r, 2)}});
}
// @entry disabled
VH_ENTRY(disabled)
{
    const auto r = ar::root(vh::rec, arp::validation::default_validator, ar::flag("hello"_S, arp::runtime_enable{false}, yes), ar::mode("cmd"_S, ar::flag("num"_S), arp::runtime_enable{false}, yes), ar::arg<std::string_view>("txt"_S, txt));
    suggest(r, {{"", prefix_type::long_, LONG(r, 2)}});
}
// a node is offered when it and the modes it is in are enabled
// @entry nested
VH_ENTRY(nested)
{
    const bool e = vh::any<std::uint8_t>("outer", 0, 1), f = vh::any<std::uint8_t>("inner", 0, 1), g = vh::any<std::uint8_t>("flag", 0, 1);
    const auto r = ar::root(vh::rec, arp::validation::default_validator,
        ar::mode("out"_S, arp::runtime_enable{e}, ar::mode("cmd"_S, arp::runtime_enable{f}, ar::flag("num"_S, arp::runtime_enable{g}), ar::flag("hello"_S), arp::router{[](bool, bool) {}})),
        ar::flag("txt"_S, yes));
    const auto& o = std::get<0>(r.children());
    const auto& m = std::get<0>(o.children());
    std::vector<name_t> names{{"", prefix_type::long_, LONG(r, 1)}};
    if (e) names.push_back({"", prefix_type::none, o.none_name()});
    if (e && f) { names.push_back({"out", prefix_type::none, m.none_name()}); names.push_back({"cmd", prefix_type::long_, LONG(m, 1), "out"}); }
    if (e && f && g) names.push_back({"cmd", prefix_type::long_, LONG(m, 0), "out"});
    suggest(r, names);
}
// @entry nothing
VH_ENTRY(nothing)
{
    VH_COVER("suggested");
    suggest(ar::root(vh::rec, arp::validation::default_validator, ar::flag("hello"_S, arp::runtime_enable{false}, yes)), {});
}

// C09: name<separator>value equals name followed by value.
#include "node.hpp"
VH_DICT("--hello=v", "--hello=", "--hello", "--hello=a=b", "--other=v", "-h=v", "--hello==", "=", "v", "", "--", "--hello:v", "--hello\xC2\xA3v");

// index of the first separator, or npos
static std::size_t find(std::string_view t, char c)
{
    for (std::size_t i = 0; i < t.size(); ++i) if (t[i] == c) return i;
    return std::string_view::npos;
}
// Any list offered to a node with a separator.
template <typename Node>
static void separated(const Node& node, std::string_view lname, std::string_view sname, std::string_view sep)
{
    vh::offered o;
    __v_args("args", vh::max_tokens, &o.before);
    vh::offer_list(o, node);
    if (o.n() == 0) { VH_ASSERT(!o.matched && !o.threw, "nothing to take"); return; }
    const auto t = o.before[0].name;
    const bool sh = !sname.empty() && t.size() >= sname.size() && vh::same(t.substr(0, sname.size()), sname);
    const auto name = sh ? sname : lname;
    if (vh::same(t, name)) {
        VH_COVER("separator forgotten");
        VH_ASSERT(!o.matched && o.threw && o.ec == ar::error_code::missing_value_separator, "the name without a separator is an error");
        VH_ASSERT(o.ec_tokens.size() == 1 && vh::same(o.ec_tokens[0].name, lname.substr(2)), "naming the node");
        return;
    }
    const bool own = t.size() > name.size() + sep.size() && vh::same(t.substr(0, name.size()), name) && vh::same(t.substr(name.size(), sep.size()), sep);
    if (own) {
        VH_COVER("name and value");
        VH_ASSERT(o.matched && !o.threw, "accepted");
        VH_ASSERT(o.got.size() == 1 && o.got[0].prefix == prefix_type::none, "one value");
        VH_ASSERT(o.got[0].name.data() == t.data() + name.size() + sep.size() && o.got[0].name.size() == t.size() - name.size() - sep.size(), "the value is all that follows the first separator");
        o.left(1, "the other arguments are left unchanged");
        return;
    }
    VH_COVER("somebody else's");
    VH_ASSERT(!o.matched && !o.threw, "not this node's");
    o.untouched("left untouched");
}
// @entry equals
VH_ENTRY(equals) { separated(ar::arg<std::string_view>("hello"_S, arp::value_separator_t{"="_S}), "--hello", "", "="); }
// @entry multi_byte unroll=3 unroll_t=6
VH_ENTRY(multi_byte) { separated(ar::arg<std::string_view>("hello"_S, arp::value_separator_t{"\xC2\xA3"_S}), "--hello", "", "\xC2\xA3"); }
// @entry with_short
VH_ENTRY(with_short) { separated(ar::arg<std::string_view>("hello"_S, "h"_S, arp::value_separator_t{":"_S}), "--hello", "-h", ":"); }

// In a tree: the node with the separator delivers what the same node without one does for the split arguments.
struct got_t { int calls; bool w; std::string_view t; };
static got_t got;
template <typename... P>
static vh::outcome run(tokens_t a, P... p)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    return vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::arg<std::string_view>("text"_S, p..., arp::default_value{std::string_view{}}), ar::flag("world"_S),
                 arp::router{[](std::string_view t, bool w) { ++got.calls; got.w = w; got.t = t; }})), std::move(a));
}
// @entry tree
VH_ENTRY(tree)
{
    // any two arguments, the first or second of the form --text=<value>
    const auto joined = vh::bytes("joined");
    __v_assume(joined.size() >= 8);
    __v_assume(vh::same(joined.substr(0, 7), "--text="));
    const auto v = joined.substr(7);
    const auto other = vh::bytes("other");
    __v_assume(!(other.size() >= 6 && other.substr(0, 6) == "--text"));   // the rest is about other nodes
    const bool before = vh::any<std::uint8_t>("before", 0, 1);
    tokens_t a, b;
    const auto add = [](tokens_t& l, std::string_view s) { l.push_back({prefix_type::none, s}); };
    if (before) { add(a, other); add(b, other); }
    add(a, joined); add(b, "--text"); add(b, joined.substr(7));
    if (!before) { add(a, other); add(b, other); }
    const auto o1 = run(a, arp::value_separator_t{"="_S});
    const auto g1 = got; const auto ec1 = vh::ec; const auto n1 = vh::ec_tokens.size();
    const auto o2 = run(b);
    VH_ASSERT(o1 == o2 && g1.calls == got.calls && ec1 == vh::ec, "same outcome");
    VH_ASSERT(g1.w == got.w && vh::same(g1.t, got.t), "same values");
    if (o1 == vh::outcome::routed) { VH_COVER("routed"); VH_ASSERT(vh::same(g1.t, v), "the value"); }
    else { VH_COVER("failed"); }
    (void)n1;
}

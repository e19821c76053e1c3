// C08: collapsed short forms equal their expansion.
#include "node.hpp"
VH_DICT("-h", "-w", "-hw", "-wh", "-hh", "-hwx", "-x", "--hello", "--hw", "hw", "h", "-", "--", "", "-\xC3\xA9w", "-h\xC3\xA9");

// Any list offered to a flag with a short name.
// @entry one_flag unroll=5 unroll_t=10 budget=60
VH_ENTRY(one_flag)
{
    vh::offered o;
    __v_args("args", vh::max_tokens, &o.before);
    vh::offer_list(o, ar::flag("hello"_S, "h"_S));
    VH_ASSERT(!o.threw, "expanding raises no error");
    if (o.n() == 0) return;
    const auto t = o.before[0].name;
    const bool as_long = vh::same(t, "--hello");
    const bool as_short = t.size() >= 2 && t[0] == '-' && t[1] == 'h';
    if (as_long || (as_short && t.size() == 2)) {
        VH_COVER("own name");
        VH_ASSERT(o.matched && o.got.size() == 0, "the node is named");
        o.left(1, "only the name is removed");
        return;
    }
    // 'h' followed by printable ASCII is a character of its own
    if (as_short && t[2] >= 0x20 && t[2] < 0x7f) {
        VH_COVER("collapsed");
        VH_ASSERT(o.matched && o.got.size() == 0, "the first character names the node");
        VH_ASSERT(o.after.size() >= o.n(), "the rest of the characters replace the argument");
        const auto extra = o.after.size() - (o.n() - 1);
        // the extra tokens are short-form, partition the rest of the text in order, one character each
        const char* at = t.data() + 2;
        for (std::size_t i = 0; i < extra; ++i) {
            const auto& e = o.after[i];
            VH_ASSERT(e.prefix == prefix_type::short_ && e.name.data() == at && e.name.size() >= 1, "characters in order");
            at += e.name.size();
        }
        VH_ASSERT(at == t.data() + t.size(), "no character is lost");
        vh::forall("k", o.n() - 1, [&](std::size_t k) { VH_ASSERT(vh::identical(o.after[extra + k], o.before[1 + k]), "the remaining arguments are unchanged and in order"); });
        return;
    }
    if (as_short) return;   // 'h' with a combining character: not the name
    VH_COVER("somebody else's");
    VH_ASSERT(!o.matched, "not matched");
    o.untouched("other arguments are left unchanged");
}
// Two flags and a value option: the collapsed list has the outcome of its expansion.
struct got_t { int calls; bool h, w; std::string_view t; };
static got_t got;
static vh::outcome run(tokens_t a)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    return vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("hello"_S, "h"_S), ar::flag("w"_S), ar::arg<std::string_view>("text"_S, "t"_S, arp::default_value{std::string_view{}}),
                 arp::router{[](bool h, bool w, std::string_view t) { ++got.calls; got.h = h; got.w = w; got.t = t; }})), std::move(a));
}
static void compare(const tokens_t& args, std::size_t at, std::initializer_list<std::string_view> expanded)
{
    tokens_t e;
    for (std::size_t i = 0; i < args.size(); ++i) {
        if (i == at) for (auto s : expanded) e.push_back({prefix_type::none, s});
        else e.push_back(args[i]);
    }
    const auto o1 = run(args);
    const auto g1 = got;
    const auto ec1 = vh::ec;
    const auto et1 = vh::ec_tokens;
    const auto o2 = run(e);
    VH_ASSERT(o1 == o2 && g1.calls == got.calls, "same outcome");
    VH_ASSERT(g1.h == got.h && g1.w == got.w && vh::same(g1.t, got.t), "same values");
    VH_ASSERT(ec1 == vh::ec, "same error");
    VH_ASSERT(et1.size() == vh::ec_tokens.size(), "same error tokens");
    if (o1 == vh::outcome::routed) VH_COVER("routed"); else VH_COVER("failed");
}
// @entry tree unroll=3 unroll_t=4 budget=60 bound=3_arguments,_one_of_them_collapsed_(2_or_3_ASCII_characters)
VH_ENTRY(tree)
{
    static char buf[4];
    const auto n = vh::any<std::size_t>("n", 1, 2), k = vh::any<std::size_t>("k", 0, 1), len = vh::any<std::size_t>("len", 2, 3);
    __v_assume(k < n);
    static char c[3][2];
    buf[0] = '-';
    for (std::size_t i = 0; i < 3; ++i) { c[i][0] = '-'; c[i][1] = buf[1 + i] = "hwtx"[vh::any<std::size_t>("c", 0, 3)]; }
    __v_assume(buf[1] == 'h' || buf[1] == 'w');   // a node that collapses
    for (std::size_t i = 0; i + 1 < len; ++i) __v_assume(buf[1 + i] != 't');   // a value must be an argument of its own
    tokens_t args;
    static const std::string_view words[] = {"-h", "-w", "-t", "--hello", "v", "--text"};
    for (std::size_t i = 0; i < n; ++i) {
        if (i == k) args.push_back({prefix_type::none, {buf, len + 1}});
        else {
            const auto w = vh::any<std::size_t>("word", 0, 5);
            __v_assume(i != 0 || k != 1 || (w != 2 && w != 5));   // the collapsed argument is not a value
            args.push_back({prefix_type::none, words[w]});
        }
    }
    if (len == 2) compare(args, k, {{c[0], 2}, {c[1], 2}});
    else compare(args, k, {{c[0], 2}, {c[1], 2}, {c[2], 2}});
    VH_COVER("compared");
}

// C29: no argument list can cause undefined behaviour.  Every memory access, allocation and call on every path below is an
// obligation of its own; each entry also has to end in a delivered result or the configured error.
#include "any_args.hpp"

// @entry options
VH_ENTRY(options)
{
    attempt(of(ar::mode(ar::flag("hello"_S), ar::arg<sv>("text"_S, arp::value_separator<'='>), ar::arg<int>("num"_S, as_num, arp::min_max_value<5, 70>(), arp::default_value{6}),
                          ar::flag("world"_S), to<bool, sv, int, bool>())), any_args());
}
// @entry modeless
VH_ENTRY(modeless)
{
    attempt(of(ar::flag("hello"_S, to<bool>()), ar::arg<sv>("text"_S, arp::value_separator<'='>, to<sv>()), ar::flag("num"_S, to<bool>()),
                 ar::arg<int>("world"_S, as_num, arp::min_value<5>(), to<int>())), any_args());
}
// @entry groups
VH_ENTRY(groups)
{
    attempt(of(ar::mode(ard::one_of(ar::flag("hello"_S), ar::arg<sv>("text"_S), arp::default_value{false}),
                          ard::alias_group(ar::arg<int>("num"_S, as_num), ar::arg<int>("world"_S, arp::custom_parser<int>{[](sv) { return 1; }}), arp::required),
                          to<std::variant<bool, sv>, int>())), any_args());
}
// @entry aliases
VH_ENTRY(aliases)
{
    attempt(of(ar::mode(ar::flag("hello"_S), ar::arg<sv>("text"_S), ar::arg<sv>("world"_S),
                          ar::arg<sv>("num"_S, arp::alias(arp::long_name_t<ar::str<"text">>{}, arp::long_name_t<ar::str<"world">>{})),
                          to<bool, sv, sv>())), any_args());
}
// @entry dependents
VH_ENTRY(dependents)
{
    attempt(of(ar::mode(ar::flag("hello"_S), ar::arg<sv>("text"_S, arp::dependent(arp::long_name_t<ar::str<"hello">>{})),
                          ar::flag("world"_S, arp::dependent(arp::long_name_t<ar::str<"text">>{}, arp::long_name_t<ar::str<"hello">>{})), to<bool, sv, bool>())), any_args());
}
// the text functions that read arguments, on malformed text too: each step forwards, never past the end
namespace u8 = ar::utility::utf8;
// @entry code_points
VH_ENTRY(code_points)
{
    const auto s = vh::bytes("text");
    const auto size = u8::code_point::size(s);
    VH_ASSERT((size == 0) == s.empty() && size <= 4, "a step forwards");
    VH_ASSERT(u8::code_point::decode(s).has_value() == (!s.empty() && size <= s.size()), "reads what there is");
    auto it = u8::code_point::iterator{s};
    if (s.empty()) { VH_COVER("nothing"); VH_ASSERT(it == u8::code_point::iterator{}, "the end"); return; }
    const auto piece = *it;
    VH_ASSERT(piece.data() == s.data() && piece.size() >= 1 && piece.size() <= s.size(), "within the text");
    ++it;
    VH_ASSERT(it == u8::code_point::iterator{s.substr(piece.size())}, "a step forwards");
    if (piece.size() < s.size()) VH_COVER("more"); else VH_COVER("the last");
}
// @entry text prove=no bound=native_search
VH_ENTRY(text)
{
    const auto s = vh::bytes("text", 24), t = vh::bytes("other", 12);
    const auto max = vh::any<std::size_t>("max", 1, 30);
    std::size_t n = 0;
    for (auto c : u8::iterator::range(s)) { VH_ASSERT(c.data() == s.data() + n && !c.empty(), "within the text"); n += c.size(); }
    VH_ASSERT(n == s.size(), "all of it");
    VH_ASSERT(u8::count(s) <= s.size(), "no more clusters than bytes");
    n = 0;
    for (auto i = u8::line_iterator{s, max}; i != u8::line_iterator{}; ++i) { const auto l = *i; VH_ASSERT(l.data() >= s.data() && l.data() + l.size() <= s.data() + s.size(), "within the text"); ++n; }
    VH_ASSERT(n <= s.size() + 1, "no more lines than bytes");
    VH_ASSERT(u8::terminal_width(s) <= 2 * s.size(), "a width");
    static_cast<void>(u8::is_whitespace(s)); static_cast<void>(u8::contains_whitespace(s));
    VH_ASSERT(u8::levenshtein_distance(s, t) <= s.size() + t.size(), "a distance");
}

// C13: value tokens are converted as a whole and in order, or rejected.
#include "node.hpp"
VH_DICT("true", "yes", "y", "on", "1", "enable", "false", "no", "n", "off", "0", "disable", "tru", "truex", "", "-1", "+1", "12", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "255", "256", "007", "1 ", " 1", "0x1", "1a", "--", "-h");

// the conversion of one token by the parser of a type
template <typename T>
struct conv { bool ok = false; T v{}; ar::error_code ec{}; tokens_t toks; };
template <typename T, typename P = ar::parser<T>>
static conv<T> convert(std::string_view t)
{
    conv<T> r;
    try { r.v = P::parse(t); r.ok = true; }
    catch (ar::multi_lang_exception& e) { r.ec = e.ec(); r.toks = e.tokens(); }
    return r;
}
template <typename T>
static void rejected(const conv<T>& c, std::string_view t)
{
    VH_ASSERT(!c.ok && c.ec == ar::error_code::failed_to_parse, "anything else is the failed-to-parse error");
    VH_ASSERT(c.toks.size() == 1 && vh::same(c.toks[0].name, t) && c.toks[0].prefix == prefix_type::none, "carrying the token");
}
// @entry booleans
VH_ENTRY(booleans)
{
    const auto t = vh::bytes("token");
    const auto c = convert<bool>(t);
    for (auto w : {"true", "yes", "y", "on", "1", "enable"})
        if (vh::same(t, w)) { VH_COVER("true"); VH_ASSERT(c.ok && c.v, "documented words for true"); return; }
    for (auto w : {"false", "no", "n", "off", "0", "disable"})
        if (vh::same(t, w)) { VH_COVER("false"); VH_ASSERT(c.ok && !c.v, "documented words for false"); return; }
    VH_COVER("other");
    rejected(c, t);
}
// @entry views
VH_ENTRY(views)
{
    const auto t = vh::bytes("token");
    const auto c = convert<std::string_view>(t);
    VH_ASSERT(c.ok && c.v.data() == t.data() && c.v.size() == t.size(), "a string view is the token itself");
    const auto s = convert<std::string>(t);
    VH_ASSERT(s.ok && s.v.size() == t.size(), "a string has the token's length");
    vh::forall("k", t.size(), [&](std::size_t k) { VH_ASSERT(s.v[k] == t[k], "a string is the token's text"); });
    VH_COVER("any");
}
// @entry wrapped
VH_ENTRY(wrapped)
{
    const auto t = vh::bytes("token");
    const auto c = convert<bool>(t);
    const auto o = convert<std::optional<bool>>(t);
    VH_ASSERT(c.ok == o.ok && c.ec == o.ec, "optional: accepted as its value is");
    if (c.ok) { VH_COVER("ok"); VH_ASSERT(o.v && *o.v == c.v, "optional: the same value"); }
    else VH_COVER("fails");
    const auto e = convert<bool, ar::parser<ar::vector<bool>>>(t);
    VH_ASSERT(c.ok == e.ok && c.ec == e.ec && c.v == e.v, "container: the conversion of its elements");
}
// numbers, against the grammar [+-]digits
template <typename T>
static void number(std::size_t maxlen)
{
    const auto t = vh::bytes("token", maxlen);
    const auto c = convert<T>(t);
    bool well = t.size() > 0, neg = false;
    std::size_t i = 0;
    if (well && (t[0] == '-' || t[0] == '+')) { neg = t[0] == '-'; i = 1; well = t.size() > 1; }
    std::int64_t v = 0;
    for (; well && i < t.size(); ++i) { if (t[i] < '0' || t[i] > '9') well = false; else v = v * 10 + (t[i] - '0'); }
    if (neg) v = -v;
    // an unsigned type has no negative numbers ("-0" is left open)
    if (neg && !std::is_signed_v<T> && v == 0) return;
    if (well && v >= static_cast<std::int64_t>(std::numeric_limits<T>::min()) && v <= static_cast<std::int64_t>(std::numeric_limits<T>::max())) {
        VH_ASSERT(c.ok && static_cast<std::int64_t>(c.v) == v, "a number of the type has its value");
    } else rejected(c, t);
}
// the real conversion, natively
// @entry n_i32 prove=no bound=native_search
VH_ENTRY(n_i32) { number<std::int32_t>(12); }
// @entry n_u32 prove=no bound=native_search
VH_ENTRY(n_u32) { number<std::uint32_t>(12); }
// @entry n_u8 prove=no bound=native_search
VH_ENTRY(n_u8) { number<std::uint8_t>(4); }

#ifndef VH_NATIVE
// Contract of the Boost conversion (trusted): a function of the whole text; unsigned types wrap negative numbers.
namespace vhc
{
inline bool lex_ok(std::string_view t, unsigned bits) { return __v_uf("lex.ok", 1, 3, t.data(), t.size(), std::uint64_t{bits}) != 0; }
inline std::uint64_t lex_val(std::string_view t, unsigned bits) { return __v_uf("lex.val", 1ull << 33, 3, t.data(), t.size(), std::uint64_t{bits}); }
VH_CONTRACT("^bool boost::conversion::detail::try_lexical_convert<short, std::basic_string_view")
bool lex_i16(const std::string_view& t, std::int16_t& r) { if (!lex_ok(t, 16)) return false; r = static_cast<std::int16_t>(lex_val(t, 16)); return true; }
VH_CONTRACT("^bool boost::conversion::detail::try_lexical_convert<unsigned short, std::basic_string_view")
bool lex_u16(const std::string_view& t, std::uint16_t& r) { if (!lex_ok(t, 17)) return false; r = static_cast<std::uint16_t>(lex_val(t, 17)); return true; }
VH_CONTRACT("^bool boost::conversion::detail::try_lexical_convert<int, std::basic_string_view")
bool lex_i32(const std::string_view& t, std::int32_t& r) { if (!lex_ok(t, 32)) return false; r = static_cast<std::int32_t>(lex_val(t, 32)); return true; }
}  // namespace vhc
#    define LEX(x) x
#endif
// the parser passes the whole token and keeps result and failure
// @entry numbers native=no
VH_ENTRY(numbers)
{
#ifndef VH_NATIVE
    const auto t = vh::bytes("token");
    const auto a = convert<std::int16_t>(t);
    if (vhc::lex_ok(t, 16)) { VH_COVER("ok"); VH_ASSERT(a.ok && a.v == static_cast<std::int16_t>(vhc::lex_val(t, 16)), "the conversion's value"); }
    else { VH_COVER("fails"); rejected(a, t); }
    const auto b = convert<std::uint16_t>(t);
    if (t.size() > 0 && t[0] == '-') { VH_COVER("negative"); rejected(b, t); }
    else if (vhc::lex_ok(t, 17)) VH_ASSERT(b.ok && b.v == static_cast<std::uint16_t>(vhc::lex_val(t, 17)), "the conversion's value");
    else rejected(b, t);
    const auto c = convert<std::uint8_t>(t);
    const auto v = static_cast<std::int32_t>(vhc::lex_val(t, 32));
    if (t.size() > 0 && t[0] == '-') rejected(c, t);
    else if (vhc::lex_ok(t, 32) && v >= 0 && v <= 255) { VH_COVER("8 bit"); VH_ASSERT(c.ok && c.v == v, "the conversion's value"); }
    else rejected(c, t);
    const auto d = convert<std::int8_t>(t);
    if (vhc::lex_ok(t, 32) && v >= -128 && v <= 127) VH_ASSERT(d.ok && d.v == v, "the conversion's value");
    else rejected(d, t);
#endif
}

// delivery through a tree: custom conversions, several values and positions
struct got_t { int calls; std::string_view t, p, q; std::size_t n; std::string_view v[3]; bool b; };
static got_t got;
static std::string_view seen;
struct custom_type { std::string_view t; };
static bool accept;
// @entry custom
VH_ENTRY(custom)
{
    got = {}; seen = {}; vh::ec = {}; vh::ec_tokens.clear();
    const auto t = vh::bytes("token");
    accept = vh::any<std::uint8_t>("accept", 0, 1);
    tokens_t args{{prefix_type::none, "--num"}, {prefix_type::none, t}};
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::arg<custom_type>("num"_S, arp::required, arp::custom_parser<custom_type>{[](std::string_view s) {
                     seen = s;
                     if (!accept) throw ar::multi_lang_exception{ar::error_code::failed_to_parse, ar::parsing::token_type{prefix_type::none, s}};
                     return custom_type{s}; }}),
                 arp::router{[](custom_type v) { ++got.calls; got.t = v.t; }})), std::move(args));
    VH_ASSERT(seen.data() == t.data() && seen.size() == t.size(), "the custom parser is given the whole token");
    if (accept) { VH_COVER("accepted"); VH_ASSERT(o == vh::outcome::routed && got.calls == 1 && got.t.data() == t.data() && got.t.size() == t.size(), "and its result is delivered"); }
    else { VH_COVER("refused"); VH_ASSERT(o == vh::outcome::failed && got.calls == 0 && vh::ec == ar::error_code::failed_to_parse && vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, t), "or its error"); }
}
// @entry order
VH_ENTRY(order)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    auto copy = args;
    const auto o = vh::run(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::multi_arg<ar::vector<std::string_view>>("many"_S, arp::required, arp::fixed_count<3>),
                 ar::positional_arg<std::string_view>("p"_S, arp::required, arp::fixed_count<1>),
                 ar::positional_arg<bool>("q"_S, arp::required, arp::fixed_count<1>),
                 arp::router{[](const ar::vector<std::string_view>& v, std::string_view p, bool q) {
                     ++got.calls; got.n = v.size(); for (std::size_t i = 0; i < v.size() && i < 3; ++i) got.v[i] = v[i]; got.p = p; got.b = q; }})), std::move(copy));
    if (args.size() != 6 || !vh::same(args[0].name, "--many")) return;
    if (vh::same(args[4].name, "--many") || vh::same(args[5].name, "--many")) return;   // named again
    const auto b = convert<bool>(args[5].name);
    if (!b.ok) {
        VH_COVER("not convertible");
        VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "a value that cannot be converted fails the parse");
        VH_ASSERT(vh::ec == ar::error_code::failed_to_parse && vh::ec_tokens.size() == 1 && vh::same(vh::ec_tokens[0].name, args[5].name), "failed-to-parse carrying that token");
        return;
    }
    VH_COVER("converted");
    VH_ASSERT(o == vh::outcome::routed && got.calls == 1, "accepted");
    VH_ASSERT(got.n == 3, "all values");
    for (std::size_t i = 0; i < 3; ++i) VH_ASSERT(vh::same(got.v[i], args[1 + i].name), "in order");
    VH_ASSERT(vh::same(got.p, args[4].name) && got.b == b.v, "positional values in order");
}

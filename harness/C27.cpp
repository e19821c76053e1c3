// C27: each error code produces its own message with its tokens in order.
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts.hpp"
#include <string>
namespace ar = arg_router;
namespace arp = ar::policy;
using namespace ar::literals;
using ar::parsing::prefix_type;
using ar::parsing::token_type;
using tokens_t = ar::vector<token_type>;
VH_DICT_TOKENS("", "a", "hello", "{}", "{, }", "a rather long argument that does not fit anywhere", "}", "{");

// the message is exactly these pieces
static void is(std::string_view msg, std::initializer_list<std::string_view> pieces)
{
    std::size_t n = 0;
    for (auto p : pieces) n += p.size();
    VH_ASSERT(msg.size() == n, "nothing missing and nothing added");
    std::size_t at = 0;
    for (auto p : pieces) {
        vh::forall("k", p.size(), [&](std::size_t k) { VH_ASSERT(msg[at + k] == p[k], "text and tokens in order"); });
        at += p.size();
    }
}
static std::string_view dash(const token_type& t) { return t.prefix == prefix_type::long_ ? "--" : t.prefix == prefix_type::short_ ? "-" : ""; }
static tokens_t list(std::size_t n)
{
    tokens_t a, r;
    __v_tokens("args", vh::max_tokens, &a);
    __v_assume(a.size() >= n);
    for (std::size_t i = 0; i < n; ++i) r.push_back(a[i]);
    return r;
}
template <typename S>
static std::string text(const tokens_t& t) { return ar::utility::exception_formatter<S>::format(t); }

// @entry appended0 bound=tokens
VH_ENTRY(appended0)
{
    VH_COVER("none");
    is(text<AR_STRING("Failed")>({}), {"Failed"});
}
// @entry appended1 bound=tokens
VH_ENTRY(appended1)
{
    VH_COVER("one");
    const auto t = list(1); is(text<AR_STRING("Failed")>(t), {"Failed: ", dash(t[0]), t[0].name});
}
// @entry appended2 bound=tokens
VH_ENTRY(appended2)
{
    VH_COVER("two");
    const auto t = list(2); is(text<AR_STRING("Failed")>(t), {"Failed: ", dash(t[0]), t[0].name, ", ", dash(t[1]), t[1].name});
}
// @entry single bound=tokens
VH_ENTRY(single)
{
    VH_COVER("one");
    const auto t = list(1); is(text<AR_STRING("Bad {} value")>(t), {"Bad ", dash(t[0]), t[0].name, " value"});
}
// @entry single_extra bound=tokens
VH_ENTRY(single_extra)
{
    VH_COVER("extra ignored");
    const auto t = list(2); is(text<AR_STRING("Bad {} value")>(t), {"Bad ", dash(t[0]), t[0].name, " value"});
}
// @entry twice_missing bound=tokens
VH_ENTRY(twice_missing)
{
    VH_COVER("missing");
    const auto t = list(1); is(text<AR_STRING("Bad {} for {} here")>(t), {"Bad ", dash(t[0]), t[0].name, " for  here"});
}
// @entry all_missing bound=tokens
VH_ENTRY(all_missing)
{
    VH_COVER("missing");
    is(text<AR_STRING("Bad {} for {, } here")>({}), {"Bad  for  here"});
}
// @entry greedy bound=tokens
VH_ENTRY(greedy)
{
    VH_COVER("greedy");
    const auto t = list(3);
    for (const auto& x : t) __v_assume(x.prefix == prefix_type::long_);
    is(text<AR_STRING("A {} B { / }!")>(t), {"A ", dash(t[0]), t[0].name, " B ", dash(t[1]), t[1].name, " / ", dash(t[2]), t[2].name, "!"});
}

#ifndef VH_NATIVE
// Boost's rendering of an unsigned integer is its decimal digits.
VH_CONTRACT("boost::lexical_cast<std::__cxx11::basic_string<*unsigned long*(unsigned long const&)")
std::string decimal(const std::uint64_t& v)
{
    char b[20];
    std::size_t n = 0;
    for (auto x = v; n == 0 || x; x /= 10) b[n++] = static_cast<char>('0' + x % 10);
    std::string r;
    while (n) r.push_back(b[--n]);
    return r;
}
#endif
// Which message: any error code, the user's translations before the built-in ones.
struct mine {
    using error_code_translations = std::tuple<
        std::pair<ar::traits::integral_constant<ar::error_code::failed_to_parse>, AR_STRING("Mine parse")>,
        std::pair<ar::traits::integral_constant<ar::error_code::missing_value_separator>, AR_STRING("Mine separator")>,
        std::pair<ar::traits::integral_constant<ar::error_code{1000}>, AR_STRING("Mine new")>>;
};
template <typename T>
static std::string message(ar::error_code ec)
{
    try {
        T::translate_exception(ar::multi_lang_exception{ec});
    } catch (ar::parse_exception& e) {
        return e.what();
    }
}
static std::string_view built_in(ar::error_code ec)
{
    using e = ar::error_code;
    switch (ec) {
    case e::unknown_argument: return "Unknown argument";
    case e::unhandled_arguments: return "Unhandled arguments";
    case e::argument_has_already_been_set: return "Argument has already been set";
    case e::failed_to_parse: return "Failed to parse";
    case e::no_arguments_passed: return "No arguments passed";
    case e::minimum_value_not_reached: return "Minimum value not reached";
    case e::maximum_value_exceeded: return "Maximum value exceeded";
    case e::minimum_count_not_reached: return "Minimum count not reached";
    case e::maximum_count_exceeded: return "Maximum count exceeded";
    case e::unknown_argument_with_suggestion: return "Unknown argument: . Did you mean ?";
    case e::mode_requires_arguments: return "Mode requires arguments";
    case e::missing_required_argument: return "Missing required argument";
    case e::too_few_values_for_alias: return "Too few values for alias";
    case e::dependent_argument_missing: return "Dependent argument missing (needs to be before the requiring token on the command line)";
    case e::one_of_selected_type_mismatch: return "Only one argument from a \"One Of\" can be used at once";
    case e::missing_value_separator: return "Expected a value separator";
    default: return {};
    }
}
static bool known(std::uint64_t c) { return c < 10 || (c >= 100 && c < 106); }
// @entry built_in_messages
VH_ENTRY(built_in_messages)
{
    const auto c = vh::any<std::uint64_t>("code", 0, 200);
    __v_assume(known(c));
    VH_COVER("translated");
    const auto m = message<arp::exception_translator_t<ar::default_error_code_translations, void>>(ar::error_code{c});
    is(m, {built_in(ar::error_code{c})});
}
// @entry user_messages
VH_ENTRY(user_messages)
{
    const auto c = vh::any<std::uint64_t>("code", 0, 1000);
    __v_assume(known(c) || c == 1000);
    const auto m = message<arp::exception_translator_t<mine>>(ar::error_code{c});
    const bool p = c == 3, s = c == 105, n = c == 1000;
    if (p || s || n)
{
    VH_COVER("user");
    is(m, {p ? "Mine parse" : s ? "Mine separator" : "Mine new"}); return;
}
    VH_COVER("built-in");
    is(m, {built_in(ar::error_code{c})});
}
// @entry untranslated bound=codes
VH_ENTRY(untranslated)
{
    static constexpr struct { std::uint64_t c; const char* s; } codes[] = {{10, "10"}, {99, "99"}, {106, "106"}, {999, "999"}, {4294967296u, "4294967296"}, {~std::uint64_t{0}, "18446744073709551615"}};
    const auto i = vh::any<std::uint64_t>("which", 0, 5);
    for (std::uint64_t k = 0; k < 6; ++k) {
        if (i != k) continue;
        VH_COVER("generic");
        is(message<arp::exception_translator_t<mine>>(ar::error_code{codes[k].c}), {"Untranslated error code (", codes[k].s, ")"});
    }
}

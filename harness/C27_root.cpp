// C27: the message of an error raised while parsing reaches the user as a parse_exception.
#include "node.hpp"
VH_DICT("--hello", "--world", "x", "", "--num", "12");

static int calls;
// the message is exactly these pieces (read in place: what() is a C string, and an argument may contain a NUL)
static void is(const char* msg, std::initializer_list<std::string_view> pieces)
{
    std::size_t at = 0;
    for (auto p : pieces) {
        vh::forall("k", p.size(), [&](std::size_t k) { VH_ASSERT(msg[at + k] == p[k], "text and tokens in order"); });
        at += p.size();
    }
    VH_ASSERT(msg[at] == '\0', "nothing more");
}
struct mine {
    using error_code_translations = std::tuple<
        std::pair<ar::traits::integral_constant<ar::error_code::minimum_count_not_reached>, AR_STRING("More for {}")>,
        std::pair<ar::traits::integral_constant<ar::error_code::unknown_argument_with_suggestion>, AR_STRING("What is {}")>>;
};
template <typename Root, typename Check>
static bool parse(const Root& r, const tokens_t& args, Check check)
{
    calls = 0;
    auto copy = args;
    try {
        r.parse(std::move(copy));
    } catch (ar::parse_exception& e) {
        check(e.what());
        return false;
    } catch (...) {
        VH_ASSERT(false, "nothing but a parse_exception reaches the user");
    }
    return true;
}
// @entry built_in bound=tokens
VH_ENTRY(built_in)
{
    tokens_t a;
    __v_args("args", vh::max_tokens, &a);
    __v_assume(a.size() <= 3);
    const auto ok = parse(ar::root(arp::validation::default_validator, ar::flag("hello"_S, arp::router{[](bool) { ++calls; }}),
                                   ar::arg<std::string_view>("text"_S, arp::router{[](std::string_view) { ++calls; }})), a, [&](const char* m) {
    if (a.size() == 0) { VH_COVER("none"); is(m, {"No arguments passed"}); return; }
    if (vh::same(a[0].name, "--hello")) {
        VH_COVER("left over");
        if (a.size() == 2) is(m, {"Unhandled arguments: ", a[1].name});
        else is(m, {"Unhandled arguments: ", a[1].name, ", ", a[2].name});
        return;
    }
    if (vh::same(a[0].name, "--text")) {
        if (a.size() == 1) { VH_COVER("count"); is(m, {"Minimum count not reached: --text"}); }
        else is(m, {"Unhandled arguments: ", a[2].name});
        return;
    }
    VH_COVER("unknown");
    std::string_view start = "Unknown argument: ";
    vh::forall("k", start.size(), [&](std::size_t k) { VH_ASSERT(m[k] == start[k], "the unknown argument message"); });
    });
    VH_ASSERT(ok == (calls == 1), "routed or rejected");
}
// @entry users bound=tokens
VH_ENTRY(users)
{
    tokens_t a;
    __v_args("args", vh::max_tokens, &a);
    __v_assume(a.size() <= 2);
    const auto ok = parse(ar::root(arp::validation::default_validator, arp::exception_translator<mine>, ar::flag("hello"_S, arp::router{[](bool) { ++calls; }}),
                                   ar::arg<std::string_view>("text"_S, arp::router{[](std::string_view) { ++calls; }})), a, [&](const char* m) {
    if (a.size() == 0) { is(m, {"No arguments passed"}); return; }
    if (vh::same(a[0].name, "--hello")) { VH_COVER("built-in"); is(m, {"Unhandled arguments: ", a[1].name}); return; }
    if (vh::same(a[0].name, "--text")) { VH_COVER("user's"); is(m, {"More for --text"}); return; }
    VH_COVER("user's with token");
    is(m, {"What is ", a[0].name});
    });
    VH_ASSERT(ok == (calls == 1), "routed or rejected");
}

// C18: a runtime-disabled node is as if absent from the tree; an enabled one as if it had no such setting.
#include "node.hpp"
VH_DICT("--hello", "--hello=", "--hello=v", "--text", "--world", "--num", "v", "", "--", "-h", "sub", "aa", "bb");
namespace ard = ar::dependency;

struct got_t { int calls; int which; bool f, g; std::string_view t, p; };
static got_t got;
struct verdict { vh::outcome o; got_t g; ar::error_code ec; tokens_t tokens; };

template <typename Root>
static verdict judge(const Root& r, const tokens_t& args)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    auto copy = args;
    const auto o = vh::run(r, std::move(copy));
    return {o, got, vh::ec, vh::ec_tokens};
}
// the same acceptance and the same router call
static void alike(const verdict& a, const verdict& b)
{
    VH_ASSERT(a.o == b.o, "accepted or rejected alike");
    VH_ASSERT(a.g.calls == b.g.calls && a.g.which == b.g.which, "the same router is called");
    VH_ASSERT(a.g.f == b.g.f && a.g.g == b.g.g, "the same flags are delivered");
    VH_ASSERT(vh::same(a.g.t, b.g.t), "the same text is delivered");
    VH_ASSERT(vh::same(a.g.p, b.g.p), "the same positional value is delivered");
    if (a.o == vh::outcome::routed) VH_COVER("accepted");
    else VH_COVER("rejected");
}
static void same_error(const verdict& a, const verdict& b)
{
    VH_ASSERT(a.ec == b.ec && a.tokens.size() == b.tokens.size(), "the same error");
    vh::forall("k", a.tokens.size(), [&](std::size_t k) { VH_ASSERT(vh::same(a.tokens[k].name, b.tokens[k].name), "the same error tokens"); });
}
static tokens_t any_args()
{
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    return args;
}
static auto one = ar::positional_arg<std::string_view>("one"_S, arp::fixed_count<1>, arp::default_value{std::string_view{"none"}});
template <typename... N>
static auto tree(N... n)
{
    return ar::root(vh::rec, arp::validation::default_validator, ar::mode(std::move(n)...));
}
struct txt_t { std::string_view t; };
static const auto txt = arp::custom_parser<txt_t>{[](std::string_view t) { return txt_t{t}; }};
constexpr auto dflt = std::string_view{"dflt"};

// @entry option
VH_ENTRY(option)
{
    const auto args = any_args();
    const auto d = judge(tree(ar::arg<std::string_view>("hello"_S, arp::runtime_enable{false}, arp::default_value{dflt}), ar::flag("world"_S), one,
                              arp::router{[](std::string_view t, bool f, std::string_view p) { ++got.calls; got.f = f; got.t = t; got.p = p; }}), args);
    VH_ASSERT(d.g.calls == 0 || vh::same(d.g.t, dflt), "the disabled option delivers its missing value");
    const auto w = judge(tree(ar::flag("world"_S), one,
                              arp::router{[](bool f, std::string_view p) { ++got.calls; got.f = f; got.p = p; got.t = dflt; }}), args);
    alike(d, w);
}
// @entry separated
VH_ENTRY(separated)
{
    const auto args = any_args();
    const auto d = judge(tree(ar::arg<std::string_view>("hello"_S, arp::value_separator<'='>, arp::runtime_enable{false}), ar::flag("world"_S), one,
                              arp::router{[](std::string_view t, bool f, std::string_view p) { ++got.calls; got.f = f; got.t = t; got.p = p; }}), args);
    VH_ASSERT(d.g.calls == 0 || d.g.t.empty(), "the disabled option delivers its missing value");
    const auto w = judge(tree(ar::flag("world"_S), one,
                              arp::router{[](bool f, std::string_view p) { ++got.calls; got.f = f; got.p = p; }}), args);
    alike(d, w);
}
// @entry flags
VH_ENTRY(flags)
{
    const auto args = any_args();
    const auto d = judge(tree(ar::flag("hello"_S, "h"_S, arp::runtime_enable{false}), ar::flag("world"_S), ar::arg<std::string_view>("text"_S),
                              arp::router{[](bool g, bool f, std::string_view t) { ++got.calls; got.g = g; got.f = f; got.t = t; }}), args);
    const auto w = judge(tree(ar::flag("world"_S), ar::arg<std::string_view>("text"_S),
                              arp::router{[](bool f, std::string_view t) { ++got.calls; got.f = f; got.t = t; }}), args);
    alike(d, w);
}
// @entry required_option
VH_ENTRY(required_option)
{
    const auto args = any_args();
    const auto d = judge(tree(ar::arg<std::string_view>("text"_S, arp::runtime_enable_required<std::string_view>{false, dflt}), ar::flag("world"_S), one,
                              arp::router{[](std::string_view t, bool f, std::string_view p) { ++got.calls; got.f = f; got.t = t; got.p = p; }}), args);
    const auto w = judge(tree(ar::flag("world"_S), one,
                              arp::router{[](bool f, std::string_view p) { ++got.calls; got.f = f; got.p = p; got.t = dflt; }}), args);
    alike(d, w);
}
// @entry enabled_required
VH_ENTRY(enabled_required)
{
    const auto args = any_args();
    const auto d = judge(tree(ar::arg<std::string_view>("text"_S, arp::runtime_enable_required<std::string_view>{true, dflt}), ar::flag("world"_S), one,
                              arp::router{[](std::string_view t, bool f, std::string_view p) { ++got.calls; got.f = f; got.t = t; got.p = p; }}), args);
    const auto w = judge(tree(ar::arg<std::string_view>("text"_S, arp::required), ar::flag("world"_S), one,
                              arp::router{[](std::string_view t, bool f, std::string_view p) { ++got.calls; got.f = f; got.t = t; got.p = p; }}), args);
    alike(d, w);
    same_error(d, w);
}
// @entry enabled
VH_ENTRY(enabled)
{
    const auto args = any_args();
    const auto route = arp::router{[](std::string_view t, bool g) { ++got.calls; got.g = g; got.t = t; }};
    const auto d = judge(tree(ar::arg<std::string_view>("hello"_S, arp::value_separator<'='>, arp::runtime_enable{true}), ar::flag("num"_S, arp::runtime_enable{true}), route), args);
    const auto w = judge(tree(ar::arg<std::string_view>("hello"_S, arp::value_separator<'='>), ar::flag("num"_S), route), args);
    alike(d, w);
    same_error(d, w);
}
// @entry one_of_member
VH_ENTRY(one_of_member)
{
    const auto args = any_args();
    const auto d = judge(tree(ard::one_of(ar::flag("hello"_S), ar::arg<std::string_view>("text"_S, arp::runtime_enable{false}), ar::arg<txt_t>("num"_S, txt), arp::default_value{true}), ar::flag("world"_S),
                              arp::router{[](std::variant<bool, std::string_view, txt_t> v, bool f) { ++got.calls; got.f = f; got.which = v.index() == 2; got.g = v.index() == 0 && std::get<0>(v); }}), args);
    const auto w = judge(tree(ard::one_of(ar::flag("hello"_S), ar::arg<txt_t>("num"_S, txt), arp::default_value{true}), ar::flag("world"_S),
                              arp::router{[](std::variant<bool, txt_t> v, bool f) { ++got.calls; got.f = f; got.which = v.index() == 1; got.g = v.index() == 0 && std::get<0>(v); }}), args);
    alike(d, w);
}
// @entry named_mode
VH_ENTRY(named_mode)
{
    const auto args = any_args();
    const auto main = [] { return ar::mode(ar::flag("world"_S), ar::arg<std::string_view>("text"_S), arp::router{[](bool f, std::string_view t) { ++got.calls; got.which = 1; got.f = f; got.t = t; }}); };
    const auto d = judge(ar::root(vh::rec, arp::validation::default_validator,
                                  ar::mode("sub"_S, ar::flag("hello"_S), arp::runtime_enable{false}, arp::router{[](bool f) { ++got.calls; got.which = 2; got.f = f; }}), main()), args);
    const auto w = judge(ar::root(vh::rec, arp::validation::default_validator, main()), args);
    alike(d, w);
}
// @entry nested_mode
VH_ENTRY(nested_mode)
{
    const auto args = any_args();
    const auto route = [](int n) { return [n](bool f) { ++got.calls; got.which = n; got.f = f; }; };
    const auto d = judge(ar::root(vh::rec, arp::validation::default_validator,
                                  ar::mode("sub"_S, ar::mode("aa"_S, ar::flag("hello"_S), arp::runtime_enable{false}, arp::router{route(1)}), ar::mode("bb"_S, ar::flag("world"_S), arp::router{route(2)}))), args);
    const auto w = judge(ar::root(vh::rec, arp::validation::default_validator,
                                  ar::mode("sub"_S, ar::mode("bb"_S, ar::flag("world"_S), arp::router{route(2)}))), args);
    alike(d, w);
    VH_ASSERT(d.ec == w.ec, "the same error");
}
// @entry anonymous_mode
VH_ENTRY(anonymous_mode)
{
    const auto args = any_args();
    const auto sub = [] { return ar::mode("sub"_S, ar::flag("hello"_S), arp::router{[](bool f) { ++got.calls; got.which = 2; got.f = f; }}); };
    const auto d = judge(ar::root(vh::rec, arp::validation::default_validator, sub(),
                                  ar::mode(ar::flag("world"_S), one, arp::runtime_enable{false}, arp::router{[](bool f, std::string_view p) { ++got.calls; got.which = 1; got.f = f; got.p = p; }})), args);
    const auto w = judge(ar::root(vh::rec, arp::validation::default_validator, sub()), args);
    alike(d, w);
}

// C28: language selection picks the matching language or the default; locale names are normalised.
#include "node.hpp"
VH_DICT("", "en_GB", "fr", "en-US", "uz-Latn-UZ", "fr.UTF-8", "a.b.c", ".", "-", "--.-", "en_US", "ja", "en", "en_GBx");

// @entry locale unroll=10 unroll_t=24 budget=60
VH_ENTRY(locale)
{
    const auto s = vh::bytes("name");
    const auto r = ar::multi_lang::iso_locale(s);
    VH_COVER("converted");
    const auto dot = s.find('.');
    const auto n = dot == std::string_view::npos ? s.size() : dot;
    VH_ASSERT(r.size() == n, "everything from the first dot on is dropped, nothing else");
    vh::forall("k", n, [&](std::size_t k) { VH_ASSERT(r[k] == static_cast<char>(__v_ite(s[k] == '-', '_', s[k])), "hyphens become underscores, nothing else changes"); });
}
namespace arg_router::multi_lang
{
template <> class translation<AR_STRING("en_GB")> { public: using hello = AR_STRING("hello"); static constexpr int n = 1; };
template <> class translation<AR_STRING("fr")> { public: using hello = AR_STRING("bonjour"); static constexpr int n = 2; };
template <> class translation<AR_STRING("ja")> { public: using hello = AR_STRING("konnichiwa"); static constexpr int n = 3; };
}  // namespace arg_router::multi_lang
struct got_t { int calls, n; bool f; };
static got_t got;
static auto languages(std::string_view id)
{
    return ar::multi_lang::root<AR_STRING("en_GB"), AR_STRING("fr"), AR_STRING("ja")>(id, [](auto tr) {
        using t = std::decay_t<decltype(tr)>;
        return ar::root(vh::rec, arp::validation::default_validator, ar::mode(ar::flag(typename t::hello{}), arp::router{[](bool f) { ++got.calls; got.n = t::n; got.f = f; }}));
    });
}
static std::string_view name(int n) { return n == 1 ? "--hello" : n == 2 ? "--bonjour" : "--konnichiwa"; }
// @entry selection
VH_ENTRY(selection)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    const auto id = vh::bytes("id");
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    const int n = vh::same(id, "fr") ? 2 : vh::same(id, "ja") ? 3 : 1;
    auto copy = args;
    const auto o = vh::run(languages(id), std::move(copy));
    const auto own = args.size() == 1 && vh::same(args[0].name, name(n));
    if (args.size() == 0 || own) {
        if (n == 1) VH_COVER("default");
        if (n == 2) VH_COVER("other");
        VH_ASSERT(o == vh::outcome::routed && got.calls == 1 && got.n == n, "the tree of the requested language, or the default one");
        VH_ASSERT(got.f == own, "its own option names");
    } else {
        VH_COVER("rejected");
        VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "only that tree's options are recognised");
    }
}
// the way the arguments are handed over does not matter
// @entry overloads bound=arguments
VH_ENTRY(overloads)
{
    const auto id = vh::bytes("id");
    const int n = vh::same(id, "fr") ? 2 : vh::same(id, "ja") ? 3 : 1;
    const auto which = vh::any<std::uint8_t>("which", 0, 3);
    const auto r = languages(id);
    std::string_view one[] = {name(n)};
    got = {};
    bool threw = false;
    try {
        if (which == 0) r.parse(tokens_t{{prefix_type::none, name(n)}});
        else if (which == 1) r.parse(one, one + 1);
        else if (which == 2) r.parse(std::array<std::string_view, 1>{name(n)});
        else {
            char prog[] = "prog";
            char* argv[] = {prog, const_cast<char*>(name(n).data()), nullptr};
            r.parse(2, argv);
        }
    } catch (...) {
        threw = true;
    }
    VH_COVER("parsed");
    VH_ASSERT(!threw && got.calls == 1 && got.n == n && got.f, "the selected tree handles it");
}

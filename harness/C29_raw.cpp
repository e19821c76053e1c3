// C29: the process's arguments, with messages and suggestions
#include "any_args.hpp"

// a real root, with its messages and suggestions, over raw arguments
// @entry raw prove=no bound=native_search
VH_ENTRY(raw)
{
    vh::columns = vh::any<unsigned char>("columns", 0, 60);
    const auto which = vh::any<unsigned char>("tree", 0, 3);
    std::uint64_t n = 0;
    char** argv = __v_argv("argv", 12, &n);
    const auto go = [&](const auto& r) {
        calls = vh::shown = 0;
        bool failed = false;
        try { r.parse(static_cast<int>(n), argv); }
        catch (ar::parse_exception& e) { failed = true; VH_ASSERT(e.what() != nullptr, "a message"); }
        VH_ASSERT(failed == (calls + vh::shown == 0), "one router call, or a parse_exception");
    };
    const auto v = arp::validation::default_validator;
    if (which == 0)
        go(ar::root(v, ar::help("help"_S, "h"_S, "Some \u4e2d\u6587 words"_S, vh::capture),
            ar::mode("aa"_S, "A mode"_S, ar::mode("bb"_S, "Inner"_S, ar::flag("hello"_S, "h"_S, "Does it"_S), to<bool>())),
            ar::mode(ar::flag("world"_S, "w"_S), ar::counting_flag<std::uint8_t>("verb"_S, "v"_S, arp::max_value<std::uint8_t{3}>()), ar::arg<int>("num"_S, "n"_S, arp::value_separator<'='>, arp::min_max_value<1, 20>()),
                     ard::one_of(ar::flag("hello"_S), ar::arg<double>("text"_S), arp::default_value{false}),
                     ar::multi_arg<std::vector<int>>("list"_S, "l"_S, arp::token_end_marker_t<ar::str<"stop">>{}), ar::positional_arg<std::vector<sv>>("rest"_S, arp::fixed_count<2>),
                     to<bool, std::uint8_t, int, std::variant<bool, double>, std::vector<int>, std::vector<sv>>())));
    else if (which == 1)
        go(ar::root(v, ar::mode(ar::flag("hello"_S, "h"_S), ar::arg<sv>("text"_S, arp::value_separator<'='>, arp::dependent(arp::long_name_t<ar::str<"hello">>{})),
                                ar::arg<int>("num"_S, "n"_S, arp::default_value{4}), ar::arg<int>("world"_S, arp::alias(arp::long_name_t<ar::str<"num">>{})),
                                ar::forwarding_arg("--"_S), to<bool, sv, int, ar::vector<sv>>())));
    else if (which == 2)
        go(ar::root(v, ar::flag("hello"_S, "h"_S, to<bool>()), ar::flag("verb"_S, "v"_S, to<bool>()), ar::arg<unsigned char>("num"_S, "n"_S, to<unsigned char>()),
                    ar::arg<bool>("list"_S, to<bool>()), ar::arg<std::optional<float>>("text"_S, "\u00f8"_S, arp::value_separator<'='>, to<std::optional<float>>())));
    else
        go(ar::root(v, ar::mode(ard::alias_group(ar::flag("hello"_S, "h"_S), ar::arg<bool>("text"_S, "t"_S), ar::counting_flag<bool>("verb"_S, "v"_S), arp::default_value{false}),
                                ar::positional_arg<int>("one"_S, arp::fixed_count<1>, arp::min_max_value<0, 9>()), ar::positional_arg<std::vector<std::string>>("rest"_S), to<bool, int, std::vector<std::string>>())));
}
// the arguments of the process, none at all included
// @entry raw_proved
VH_ENTRY(raw_proved)
{
    std::uint64_t n = 0;
    char** argv = __v_argv("argv", 3, &n);
    calls = 0;
    bool failed = false;
    try { of(ar::flag("hello"_S, to<bool>()), ar::arg<sv>("text"_S, to<sv>())).parse(static_cast<int>(n), argv); }
    catch (vh::parse_failed&) { failed = true; }
    VH_ASSERT(failed == (calls == 0), "one router call, or the configured error");
    if (n == 0) VH_COVER("nothing"); else if (n == 1) VH_COVER("only the program's name"); else VH_COVER("arguments");
}

// C29: lists, short names, modes and help
#include "any_args.hpp"

// @entry lists unroll=6 unroll_t=12 bound=values_copied_from_a_list
VH_ENTRY(lists)
{
    attempt(of(ar::mode(ar::flag("hello"_S), ar::multi_arg<std::vector<sv>>("list"_S, arp::fixed_count<2>),
                          ar::positional_arg<sv>("one"_S, arp::fixed_count<1>), ar::positional_arg<std::vector<sv>>("rest"_S, arp::min_count<1>),
                          to<bool, std::vector<sv>, sv, std::vector<sv>>())), any_args());
}
// @entry ranged
VH_ENTRY(ranged)
{
    attempt(of(ar::mode(ar::flag("hello"_S), ar::multi_arg<std::vector<sv>>("list"_S, arp::min_max_count<1, 3>),
                          to<bool, std::vector<sv>>())), any_args());
}
// @entry marked unroll=2 unroll_t=5 budget_t=400 bound=values_of_a_marked_list
VH_ENTRY(marked)
{
    attempt(of(ar::mode(ar::flag("hello"_S), ar::multi_arg<std::vector<sv>>("list"_S, arp::token_end_marker_t<ar::str<"stop">>{}), to<bool, std::vector<sv>>())), any_args());
}
// @entry marked_positional unroll=2 unroll_t=5 budget_t=400 bound=values_of_a_marked_list
VH_ENTRY(marked_positional)
{
    attempt(of(ar::mode(ar::positional_arg<std::vector<sv>>("list"_S, arp::token_end_marker_t<ar::str<"stop">>{}), ar::positional_arg<std::vector<sv>>("rest"_S, arp::fixed_count<2>),
                          to<std::vector<sv>, std::vector<sv>>())), any_args());
}
// @entry forwarding
VH_ENTRY(forwarding)
{
    attempt(of(ar::mode(ar::flag("hello"_S), ar::forwarding_arg("--"_S, arp::max_count<4>), to<bool, ar::vector<sv>>())), any_args());
}
// @entry modes
VH_ENTRY(modes)
{
    const bool e = vh::any<unsigned char>("enabled", 0, 1), f = vh::any<unsigned char>("flag", 0, 1);
    attempt(of(ar::mode("aa"_S, arp::runtime_enable{e}, ar::mode("bb"_S, ar::flag("hello"_S, arp::runtime_enable{f}), to<bool>()), ar::flag("num"_S), to<bool>()),
                 ar::mode(ar::arg<sv>("text"_S, arp::value_separator<'='>, arp::runtime_enable{f}), to<sv>())), any_args());
}
// @entry helps
VH_ENTRY(helps)
{
    vh::columns = vh::any<unsigned>("columns", 0, 0xFFFF);
    const bool e = vh::any<unsigned char>("enabled", 0, 1);
    attempt(of(ar::help("help"_S, vh::capture), ar::mode("aa"_S, "Some words here"_S, arp::runtime_enable{e}, ar::flag("hello"_S, "One \u0301\u4e2d two"_S, arp::runtime_enable{e}), to<bool>())), any_args());
}
// short names, and so collapsed ones
// @entry shorts unroll=2 unroll_t=4 budget=60 budget_t=400 bound=arguments_and_characters_of_collapsed_ones
VH_ENTRY(shorts)
{
    attempt(of(ar::mode(ar::flag("hello"_S, "h"_S), ar::arg<sv>("num"_S, "n"_S), to<bool, sv>())), any_args());
}

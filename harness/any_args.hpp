// trees run on any argument list (C29)
#pragma once
#include "help.hpp"
VH_DICT("--hello", "--text", "--text=", "--text=v", "=", "--num", "-n", "-n5", "--world", "-h", "-v", "-vv", "-hv", "-", "--", "", "v", "12", "aa", "bb", "--list", "stop", "--help", "\xC3", "\xF0\x9F", "-\xC3", "--\xE2\x82", "-h\xFF", "\xEF\xBB\xBF", "-\xF0\x9F\x91\x8D");
namespace ard = ar::dependency;

static int calls;
template <typename... A>
struct sink { void operator()(A...) const { ++calls; } };
template <typename... A>
static auto to() { return arp::router{sink<A...>{}}; }
static tokens_t any_args()
{
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    return args;
}
template <typename Root>
static void attempt(const Root& r, tokens_t a)
{
    calls = 0; vh::ec = {}; vh::ec_tokens.clear(); vh::n_written = 0; vh::shown = 0;
    const auto o = vh::run(r, std::move(a));
    VH_ASSERT(o != vh::outcome::escaped, "ends in a router call or the configured error");
    VH_ASSERT((o == vh::outcome::routed) == (calls + vh::shown == 1), "one router call, or an error");
    if (o == vh::outcome::routed) VH_COVER("accepted"); else VH_COVER("rejected");
}
template <typename... N>
static auto of(N... n) { return ar::root(vh::rec, arp::validation::default_validator, std::move(n)...); }
using sv = std::string_view;
struct num_t { int v; };
static const auto as_num = arp::custom_parser<int>{[](sv t) { return t.empty() ? 0 : static_cast<unsigned char>(t.back()); }};


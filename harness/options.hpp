// The meaning of an argument list for a set of options, independent of the code: each option is a flag or takes the token
// after its name (or after its separator, in the same argument), and is given at most once.
#pragma once
#include "node.hpp"

namespace opts
{
struct opt {
    std::string_view lng, shrt{}, sep{};
    bool value = false;
    bool given = false;
    std::string_view v{};
};
enum class bad { none, twice, unknown, no_value, no_separator };
struct read_t { bad what = bad::none; std::size_t at = 0; };

// -1: no option's name
template <std::size_t N>
static int named(const opt (&o)[N], std::string_view t, std::string_view& joined, bool& bare)
{
    bare = false;
    for (std::size_t i = 0; i < N; ++i) {
        if (o[i].sep.empty()) {
            if (vh::same(t, o[i].lng) || (!o[i].shrt.empty() && vh::same(t, o[i].shrt))) return static_cast<int>(i);
            continue;
        }
        const auto n = o[i].lng.size(), s = o[i].sep.size();
        if (vh::same(t, o[i].lng)) { bare = true; return static_cast<int>(i); }
        if (t.size() > n + s && vh::same(t.substr(0, n), o[i].lng) && vh::same(t.substr(n, s), o[i].sep)) { joined = t.substr(n + s); return static_cast<int>(i); }
    }
    return -1;
}
template <std::size_t N>
static read_t read(const tokens_t& a, opt (&o)[N])
{
    for (std::size_t i = 0; i < a.size(); ++i) {
        std::string_view joined;
        bool bare;
        const int k = named(o, a[i].name, joined, bare);
        if (k < 0) return {bad::unknown, i};
        if (bare) return {bad::no_separator, i};
        const auto at = i;
        if (o[k].value && o[k].sep.empty()) {
            if (i + 1 >= a.size()) return {o[k].given ? bad::twice : bad::no_value, i};
            if (!o[k].given) o[k].v = a[i + 1].name;
            ++i;
        } else if (o[k].value && !o[k].given) o[k].v = joined;
        if (o[k].given) return {bad::twice, at};
        o[k].given = true;
    }
    return {};
}
template <typename Root>
static vh::outcome any_list(const Root& r, tokens_t& a)
{
    vh::ec = {};
    vh::ec_tokens.clear();
    __v_args("args", vh::max_tokens, &a);
    auto copy = a;
    return vh::run(r, std::move(copy));
}
}  // namespace opts

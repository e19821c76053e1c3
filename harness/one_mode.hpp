// One mode with a flag, a required value option and a defaulted value option, all long-named, and an independent reading of
// what an argument list means for it.
#pragma once
#include "tree.hpp"

namespace one_mode
{
struct got_t {
    int calls = 0;
    bool hello = false;
    std::string_view text, opt;
};
static got_t got;
static const char dflt_buf[] = "dflt";
static inline std::string_view dflt() { return {dflt_buf, 4}; }

static inline auto tree()
{
    return ar::root(vh::rec, arp::validation::default_validator,
                    ar::mode(ar::flag("hello"_S),
                             ar::arg<std::string_view>("text"_S, arp::required),
                             ar::arg<std::string_view>("opt"_S, arp::default_value{std::string_view{dflt_buf, 4}}),
                             arp::router{[](bool h, std::string_view t, std::string_view o) {
                                 ++got.calls;
                                 got.hello = h;
                                 got.text = t;
                                 got.opt = o;
                             }}));
}
// the meaning of an argument list
struct meaning {
    bool ok = false;
    ar::error_code ec{};
    bool hello = false, text = false, opt = false;
    std::string_view text_v, opt_v;
    std::size_t at = 0;   // index of the offending argument
    bool has_at = false, dup = false;
};
static inline meaning read(const tokens_t& a)
{
    meaning m;
    std::size_t i = 0;
    const auto fail = [&](ar::error_code e, std::size_t at) { m.ec = e; m.at = at; m.has_at = true; return m; };
    while (i < a.size()) {
        const auto t = a[i].name;
        if (vh::same(t, "--hello")) {
            if (m.hello) { m.dup = true; return fail(ar::error_code::argument_has_already_been_set, i); }
            m.hello = true;
            ++i;
        } else if (vh::same(t, "--text")) {
            if (m.text) { m.dup = true; return fail(ar::error_code::argument_has_already_been_set, i); }
            if (i + 1 >= a.size()) return fail(ar::error_code::minimum_count_not_reached, i);
            m.text = true;
            m.text_v = a[i + 1].name;
            i += 2;
        } else if (vh::same(t, "--opt")) {
            if (m.opt) { m.dup = true; return fail(ar::error_code::argument_has_already_been_set, i); }
            if (i + 1 >= a.size()) return fail(ar::error_code::minimum_count_not_reached, i);
            m.opt = true;
            m.opt_v = a[i + 1].name;
            i += 2;
        } else {
            return fail(m.hello && m.text && m.opt ? ar::error_code::unhandled_arguments : ar::error_code::unknown_argument, i);
        }
    }
    if (!m.text) { m.ec = ar::error_code::missing_required_argument; return m; }
    m.ok = true;
    return m;
}
struct result {
    tokens_t args;
    vh::outcome o;
};
static inline result run()
{
    result r;
    got = {};
    vh::ec = {};
    vh::ec_tokens.clear();
    __v_args("args", vh::max_tokens, &r.args);
    auto copy = r.args;
    r.o = vh::run(tree(), std::move(copy));
    return r;
}
}  // namespace one_mode

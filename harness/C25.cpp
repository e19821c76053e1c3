// C25: wrapping text to a width breaks it where UAX #14 (the implemented rules) allows.
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts_tables.hpp"
#include "lb_rules.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
VH_DICT("", "a", "ab", "\r\n", "e\xCC\x81", "\xF0\x9F\x87\xAC\xF0\x9F\x87\xA7", "\xF0\x9F\x91\xA9\xE2\x80\x8D\xF0\x9F\x91\xA6", "\xE1\x84\x80\xE1\x85\xA0\xE1\x86\xA8", "\xC3", "\xE2\x82", "\x80", "\xFF");
constexpr auto N = std::size_t{AR_UTF8_TRAILING_WINDOW_SIZE};
// Wrapping a text of well-formed code points, compared with the rules applied to the whole line.
static void wrapped(const vhc::cps& t, std::size_t max)
{
    auto it = u8::line_iterator{t.text(), max};
    std::size_t from = 0;
    while (from < t.n) {
        // find the end of the line that starts at from
        std::size_t cols = 0, last = 0, last_cols = 0, i = from;
        unsigned before = lbr::any, a = lbr::any, base = lbr::any, far = 0;
        bool odd = false, rest = true;
        for (; i < t.n; ++i) {
            cols += vhc::columns(t.cp[i]);
            if (cols > max && i != from) { rest = false; break; }
            before = a;
            a = vhc::lb(t.cp[i]);
            odd = __v_and(a == lbr::RI, __v_not(odd));
            if (a != lbr::SP) { base = a; far = 0; }
            else if (++far >= N) base = lbr::any;   // out of reach
            const unsigned b = i + 1 < t.n ? vhc::lb(t.cp[i + 1]) : lbr::any;
            if (!lbr::joined(before, base, a, b, odd)) { last = i + 1; last_cols = cols; }
        }
        const auto to = rest ? t.n : last_cols != 0 ? last : i;
        VH_ASSERT(it != u8::line_iterator{}, "another line");
        const auto line = *it;
        VH_ASSERT(line.data() == t.b + t.at[from], "directly after what is dropped");
        VH_ASSERT(line.size() == t.at[to] - t.at[from], "ends where the rules and the width say");
        ++it;
        from = to;
        while (from < t.n && vhc::ws(t.cp[from])) ++from;
    }
    VH_ASSERT(it == u8::line_iterator{}, "then the end");
    VH_COVER("wrapped");
}
// @entry classes_2 forksel=yes bound=2_code_points tier=thorough budget_t=500
VH_ENTRY(classes_2)
{
    vhc::cps t;
    t.any(); t.any();
    wrapped(t, vh::any<std::size_t>("max", 1, 4));
}
// @entry classes_3 forksel=yes bound=3_code_points tier=thorough budget_t=500
VH_ENTRY(classes_3)
{
    vhc::cps t;
    t.any(4); t.any(1, 1); t.any(4);
    wrapped(t, vh::any<std::size_t>("max", 1, 6));
}
// longer texts of the same kind, generated
// @entry texts prove=no bound=generated_texts
VH_ENTRY(texts)
{
    vhc::cps t;
    const auto n = vh::any<std::size_t>("n", 0, 23);
    for (std::size_t i = 0; i < n; ++i) t.any();
    wrapped(t, vh::any<std::size_t>("max", 1, 30));
}

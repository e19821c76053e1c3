// C25: the line breaking rules themselves, for every content of the window and every next class.
// @optional
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "private.hpp"
#include "lb_rules.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
VH_DICT("");
constexpr auto N = std::size_t{AR_UTF8_TRAILING_WINDOW_SIZE};
using cls = u8::line_break_class;
struct view { std::string_view s; std::size_t max, end; std::array<std::uint8_t, N> w; };
VH_PRIVATE(should_break, u8::line_iterator::should_break);
// @entry rules ghost=yes
VH_ENTRY(rules)
{
    static_assert(sizeof(view) == sizeof(u8::line_iterator));
    u8::line_iterator it;
    auto& w = reinterpret_cast<view&>(it).w;
    for (auto& c : w) c = vh::any<std::uint8_t>("class", 0, lbr::classes - 1);
    const auto next = vh::any<std::uint8_t>("next", 0, lbr::classes - 1);
    VH_COVER("ruled");
    unsigned base = w[0];
    bool odd = base == lbr::RI;
    if (odd) {
        VH_COVER("flags");   // the run of regional indicators at the front
        for (std::size_t i = 1; i < N; ++i) { if (w[i] != lbr::RI) break; odd = !odd; }
    } else if (base == lbr::SP) {
        VH_COVER("spaces");   // the class before the run of spaces at the front
        base = lbr::any;
        for (auto c : w) if (c != lbr::SP) { base = c; break; }
    }
    const bool b = (it.*open(should_break{}))(static_cast<cls>(next));
    VH_ASSERT(b != lbr::joined(w[1], base, w[0], next, odd), "exactly the implemented rules");
}

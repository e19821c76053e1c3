// C24: the cluster rules themselves, for every content of the window and every next class.
// @optional
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "private.hpp"
#include "contracts_tables.hpp"
#include "gcb_rules.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
VH_DICT("");
constexpr auto N = std::size_t{AR_UTF8_TRAILING_WINDOW_SIZE};
using cls = u8::grapheme_cluster_break_class;
struct view { std::size_t current; std::string_view s; std::array<std::uint8_t, N> w; };
VH_PRIVATE(should_break, u8::iterator::should_break);
// @entry rules ghost=yes
VH_ENTRY(rules)
{
    static_assert(sizeof(view) == sizeof(u8::iterator));
    u8::iterator it;
    auto& w = reinterpret_cast<view&>(it).w;
    for (auto& c : w) c = vh::any<std::uint8_t>("class", 0, vhc::gcb_classes - 1);
    const auto next = vh::any<std::uint8_t>("next", 0, vhc::gcb_classes - 1);
    VH_COVER("ruled");
    bool odd = w[0] == RI;
    if (odd) {
        VH_COVER("flags");   // the run of regional indicators at the front
        for (std::size_t i = 1; i < N; ++i) { if (w[i] != RI) break; odd = !odd; }
    }
    const bool b = (it.*open(should_break{}))(static_cast<cls>(next));
    VH_ASSERT(b != joined(w[0], next, odd), "exactly the implemented rules");
}

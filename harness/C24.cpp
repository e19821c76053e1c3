// C24: grapheme cluster iteration partitions the text at legal boundaries.
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts_tables.hpp"
#include "gcb_rules.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
VH_DICT("", "a", "ab", "\r\n", "e\xCC\x81", "\xF0\x9F\x87\xAC\xF0\x9F\x87\xA7", "\xF0\x9F\x91\xA9\xE2\x80\x8D\xF0\x9F\x91\xA6", "\xE1\x84\x80\xE1\x85\xA0\xE1\x86\xA8", "\xC3", "\xE2\x82", "\x80", "\xFF");

// iterate the text and compare every cluster
static void clusters(const vhc::cps& t)
{
    bool odd = false;
    std::size_t from = 0;
    auto it = u8::iterator{t.text()};
    for (std::size_t i = 0; i < t.n; ++i) {
        const auto a = vhc::gcb(t.cp[i]);
        odd = __v_and(a == RI, __v_not(odd));
        // natural end of the cluster: after the last code point, or where no rule joins
        const bool last = i + 1 == t.n;
        if (!last && joined(a, vhc::gcb(t.cp[i + 1]), odd)) continue;
        VH_ASSERT(it != u8::iterator{}, "another cluster");
        const auto c = *it;
        VH_ASSERT(c.data() == t.b + t.at[from], "directly after the one before");
        VH_ASSERT(c.size() == t.at[i + 1] - t.at[from], "ends exactly where the rules allow");
        ++it;
        from = i + 1;
    }
    VH_ASSERT(it == u8::iterator{}, "then the end");
    VH_COVER("iterated");
}
// @entry classes_2 forksel=yes bound=2_code_points
VH_ENTRY(classes_2)
{
    vhc::cps t;
    t.any(); t.any();
    clusters(t);
}
// @entry classes_3 forksel=yes bound=3_code_points
VH_ENTRY(classes_3)
{
    vhc::cps t;
    t.any(4); t.any(1, 1); t.any(4);
    clusters(t);
}
// @entry classes_4 forksel=yes bound=4_code_points tier=thorough budget_t=500
VH_ENTRY(classes_4)
{
    vhc::cps t;
    for (int i = 0; i < 4; ++i) t.any(4);
    clusters(t);
}
// runs of flags, longer than the window the rules look at
// @entry flags forksel=yes bound=up_to_23_regional_indicators
VH_ENTRY(flags)
{
    vhc::cps t;
    const auto n = vh::any<std::size_t>("n", 1, 23);
    for (std::size_t i = 0; i < n; ++i) {
        const auto cp = vh::any<std::uint32_t>("cp", 0x1F1E6, 0x1F1FF);
        __v_assume(vhc::gcb(cp) == RI);
        t.put(cp, 4);
    }
    clusters(t);
}
// longer texts of the same kind, generated
// @entry texts prove=no bound=generated_texts
VH_ENTRY(texts)
{
    vhc::cps t;
    const auto n = vh::any<std::size_t>("n", 0, 20);
    for (std::size_t i = 0; i < n; ++i) t.any();
    clusters(t);
}

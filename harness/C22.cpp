// C22: the suggestion metric is the true edit distance (in grapheme clusters).
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
#define VH_REAL_DISTANCE
#include "contracts_utf8.hpp"
VH_DICT("", "a", "b", "ab", "ba", "abc", "acb", "kitten", "sitting", "\xC3\xA9", "e\xCC\x81", "a\xC3\xA9" "b", "foo", "fo", "oof");

constexpr std::size_t most = 8;
struct clusters { std::string_view c[most + 1]; std::size_t n = 0; };
// the grapheme clusters of a text
static clusters split(std::string_view s)
{
    clusters r;
    for (auto c : u8::iterator::range(s)) {
        if (r.n >= most) { ++r.n; break; }
        r.c[r.n++] = c;
    }
    return r;
}
// textbook definition: full table of the distances of all prefixes
static std::size_t distance(const clusters& a, const clusters& b)
{
    std::size_t d[most + 1][most + 1];
    for (std::size_t i = 0; i <= a.n; ++i) d[i][0] = i;
    for (std::size_t j = 0; j <= b.n; ++j) d[0][j] = j;
    for (std::size_t i = 1; i <= a.n; ++i)
        for (std::size_t j = 1; j <= b.n; ++j) {
            const auto ins = d[i][j - 1] + 1, del = d[i - 1][j] + 1;
            const bool eq = vh::same(a.c[i - 1], b.c[j - 1]);
            const auto sub = d[i - 1][j - 1] + (eq ? 0 : 1);
            auto m = __v_ite(ins < del, ins, del);
            d[i][j] = __v_ite(sub < m, sub, m);
        }
    return d[a.n][b.n];
}
// @entry distance unroll=4 unroll_t=6 budget=60 bound=text
VH_ENTRY(distance)
{
    const auto a = vh::bytes("a", 64), b = vh::bytes("b", 64);
    const auto ca = split(a), cb = split(b);
    if (ca.n > most || cb.n > most) return;
    VH_COVER("computed");
    const auto r = u8::levenshtein_distance(a, b);
    VH_ASSERT(r == distance(ca, cb), "the Levenshtein distance");
}
// @entry symmetric unroll=3 unroll_t=5 budget=60 bound=text
VH_ENTRY(symmetric)
{
    const auto a = vh::bytes("a", 64), b = vh::bytes("b", 64);
    VH_COVER("computed");
    VH_ASSERT(u8::levenshtein_distance(a, b) == u8::levenshtein_distance(b, a), "symmetric");
}

// C23: UTF-8 decoding and the per-character properties are Unicode's.
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "unicode14.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
namespace cpn = ar::utility::utf8::code_point;
VH_DICT("", "a", "\n", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xF4\x8F\xBF\xBF", "e\xCC\x81", "\xE3\x80\x80", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\x80", "\xFF", "\xE4\xBD\xA0\xE5\xA5\xBD");
using cp_t = std::uint32_t;
constexpr cp_t last_cp = 0x10FFFF;

// the value Unicode gives a code point (runs: first code point and value)
template <std::size_t N>
static unsigned value(const std::uint32_t (&runs)[N], cp_t cp)
{
    std::size_t lo = 0, hi = N - 1;   // runs[lo] <= cp < runs[hi]
    while (hi - lo > 1) {
        const auto mid = lo + (hi - lo) / 2;
        if (cp < (runs[mid] >> 8)) hi = mid; else lo = mid;
    }
    return runs[lo] & 0xFF;
}
// the standard's encoding (RFC 3629, table 3-6 of the Unicode standard)
struct encoded { char b[8]; std::size_t n; };
static encoded encode(cp_t cp, std::size_t n)
{
    encoded e{};
    e.n = n;
    if (n == 1) e.b[0] = static_cast<char>(cp);
    else {
        for (std::size_t i = n - 1; i > 0; --i) { e.b[i] = static_cast<char>(0x80 | (cp & 0x3F)); cp >>= 6; }
        e.b[0] = static_cast<char>((n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0) | cp);
    }
    return e;
}
static std::size_t length(cp_t cp) { return cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4; }
static cp_t any_cp(std::size_t n)
{
    constexpr cp_t from[] = {0, 0, 0x80, 0x800, 0x10000}, to[] = {0, 0x7F, 0x7FF, 0xFFFF, last_cp};
    return vh::any<std::uint32_t>("cp", from[n], to[n]);
}
template <std::size_t N>
static void decodes()
{
    const auto cp = any_cp(N);
    if (cp >= 0xD800 && cp <= 0xDFFF) return;   // not scalar values
    auto e = encode(cp, N);
    for (std::size_t i = N; i < 8; ++i) e.b[i] = static_cast<char>(vh::any<std::uint8_t>("following"));
    VH_COVER("encoded");
    for (std::size_t extra = 0; N + extra <= 8; ++extra) {
        const std::string_view s{e.b, N + extra};
        VH_ASSERT(cpn::size(s) == N, "the standard's length");
        const auto d = cpn::decode(s);
        VH_ASSERT(d.has_value(), "decoded");
        VH_ASSERT(*d == cp, "the standard's value");
        VH_ASSERT(cpn::count(s.substr(0, N)) == 1, "counted once");
    }
    for (std::size_t cut = 0; cut < N; ++cut) VH_ASSERT(!cpn::decode(std::string_view{e.b, cut}).has_value(), "not decoded when truncated");
}
// @entry decode_1
VH_ENTRY(decode_1) { decodes<1>();
}
// @entry decode_2
VH_ENTRY(decode_2) { decodes<2>();
}
// @entry decode_3
VH_ENTRY(decode_3) { decodes<3>();
}
// @entry decode_4
VH_ENTRY(decode_4) { decodes<4>();
}
// Iterating by code point: whatever the bytes, each step denotes a non-empty piece at the front of what is left and advances
// past exactly that piece; well-formed pieces are one code point (decode_*).  By induction the pieces are the text, in order.
// @entry step
VH_ENTRY(step)
{
    const auto s = vh::bytes("text");
    auto it = cpn::iterator{s};
    const auto end = cpn::iterator{};
    if (s.empty()) {
        VH_COVER("nothing left");
        VH_ASSERT(it == end && !(it != end), "the end");
        VH_ASSERT(cpn::size(s) == 0 && !cpn::decode(s).has_value(), "nothing to decode");
        return;
    }
    VH_COVER("a piece");
    VH_ASSERT(!(it == end) && it != end, "not the end");
    const auto piece = *it;
    VH_ASSERT(piece.data() == s.data(), "at the front");
    VH_ASSERT(piece.size() >= 1, "not empty");
    VH_ASSERT(piece.size() <= s.size(), "within the text");
    const auto size = cpn::size(s);
    VH_ASSERT(size >= 1 && size <= 4, "a length the standard has");
    if (size <= s.size()) { VH_COVER("complete"); VH_ASSERT(piece.size() == size, "the whole code point"); }
    else { VH_COVER("truncated"); VH_ASSERT(piece.size() == s.size(), "what there is of it"); }
    VH_ASSERT(cpn::decode(s).has_value() == (size <= s.size()), "decoded unless truncated");
    VH_ASSERT(cpn::decode(piece) == cpn::decode(s), "depends on the piece alone");
    const auto rest = s.substr(piece.size());
    auto old = it++;
    VH_ASSERT(old == cpn::iterator{s} && old != it, "the old position");
    VH_ASSERT(it == cpn::iterator{rest}, "after the piece");
    ++old;
    VH_ASSERT(old == it, "the same either way");
    if (!rest.empty()) VH_ASSERT((*it).data() == rest.data(), "the next piece follows directly");
    auto r = cpn::iterator::range(s);
    VH_ASSERT(r.begin() == cpn::iterator{s} && r.end() == end, "a range is begin to end");
}
// whole texts of well-formed code points
// @entry count unroll=5 unroll_t=7 bound=text
VH_ENTRY(count)
{
    const auto s = vh::bytes("text", 64);
    std::size_t n = 0, leads = 0, covered = 0;
    for (auto c : cpn::iterator::range(s)) { ++n; covered += c.size(); }
    VH_ASSERT(covered == s.size(), "the pieces cover the text");
    VH_ASSERT(n <= s.size(), "no more pieces than bytes");
    VH_COVER("counted");
}
// The tables hold what Unicode says, for every code point (and nothing beyond the last).
template <std::size_t N, std::size_t M>
static void table(const std::array<cpn::range, N>& t, const std::uint32_t (&runs)[M], unsigned none)
{
    const auto cp = vh::any<std::uint32_t>("cp", 0, 0x1FFFFF);
    const auto r = u8::detail::find_range(t, cp);
    if (r) { VH_COVER("found"); VH_ASSERT(r->first() <= cp && cp <= r->last(), "the range has it"); }
    else VH_COVER("not found");
    if (cp > last_cp) { VH_ASSERT(!r, "nothing beyond the last code point"); return; }
    const auto v = value(runs, cp);
    if (none == ~0u) VH_ASSERT(r.has_value() == (v == 1), "exactly the characters Unicode lists");
    else if (v == 0) VH_ASSERT((r ? r->meta() : 0) <= none, "no class of its own where Unicode gives none");
    else VH_ASSERT((r ? r->meta() : 0) == v, "the class Unicode gives");
}
// @entry table_whitespace forksel=yes
VH_ENTRY(table_whitespace) { table(u8::whitespace_table, unicode14::ws, ~0u);
}
// @entry table_double_width forksel=yes
VH_ENTRY(table_double_width) { table(u8::double_width_table, unicode14::dw, ~0u);
}
// @entry table_zero_width forksel=yes
VH_ENTRY(table_zero_width) { table(u8::zero_width_table, unicode14::zw, ~0u);
}
// @entry table_grapheme forksel=yes budget=200
VH_ENTRY(table_grapheme) { table(u8::grapheme_cluster_break_table, unicode14::gcb, 0);
}
// @entry table_line_break forksel=yes budget=400
VH_ENTRY(table_line_break) { table(u8::line_break_table, unicode14::lb, 1);
}
// packing of a table row
// @entry range
VH_ENTRY(range)
{
    const auto f = vh::any<std::uint32_t>("first", 0, 0x1FFFFF), l = vh::any<std::uint32_t>("last", 0, 0x1FFFFF);
    const auto m = vh::any<std::uint8_t>("meta", 0, 0x3F);
    const cpn::range r{f, l, m};
    VH_COVER("packed");
    VH_ASSERT(r.first() == f, "first"); VH_ASSERT(r.last() == l, "last"); VH_ASSERT(r.meta() == m, "meta");
    VH_ASSERT(cpn::range(f, l).meta() == 0, "no meta");
    const auto f2 = vh::any<std::uint32_t>("first2", 0, 0x1FFFFF), l2 = vh::any<std::uint32_t>("last2", 0, 0x1FFFFF);
    VH_ASSERT((r < cpn::range{f2, l2}) == (f == f2 ? l < l2 : f < f2), "order of ranges");
    VH_ASSERT((r < f2) == (f < f2), "order against a code point");
}
// The answers for one character, through the public functions.
template <std::size_t N>
static void answers()
{
    const auto cp = any_cp(N);
    const auto e = encode(cp, N);
    const std::string_view s{e.b, N};
    const auto white = u8::is_whitespace(s);
    VH_ASSERT(white == (value(unicode14::ws, cp) == 1), "whitespace exactly as in Unicode");
    VH_ASSERT(u8::contains_whitespace(s) == white, "contained");
}
template <std::size_t N>
static void width()
{
    const auto cp = any_cp(N);
    const auto e = encode(cp, N);
    const auto w = u8::terminal_width(std::string_view{e.b, N});
    if (value(unicode14::dw, cp) == 1) { if (N >= 3) VH_COVER("wide"); VH_ASSERT(w == 2, "two columns"); }
    else if (value(unicode14::zw, cp) == 1) { if (N >= 2) VH_COVER("no width"); VH_ASSERT(w == 0, "no column"); }
    else { VH_COVER("plain"); VH_ASSERT(w == 1, "one column"); }
}
// @entry whitespace_1 forksel=yes
VH_ENTRY(whitespace_1) { answers<1>();
}
// @entry whitespace_2 forksel=yes
VH_ENTRY(whitespace_2) { answers<2>();
}
// @entry whitespace_3 forksel=yes
VH_ENTRY(whitespace_3) { answers<3>();
}
// @entry whitespace_4 forksel=yes
VH_ENTRY(whitespace_4) { answers<4>();
}
// @entry width_1 forksel=yes
VH_ENTRY(width_1) { width<1>();
}
// @entry width_2 forksel=yes
VH_ENTRY(width_2) { width<2>();
}
// @entry width_3 forksel=yes
VH_ENTRY(width_3) { width<3>();
}
// @entry width_4 forksel=yes
VH_ENTRY(width_4) { width<4>();
}

// C25: where a line ends, for every text and every limit (loop invariants on the real loops).
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts_cp.hpp"
#include "lb_rules.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
namespace cpn = ar::utility::utf8::code_point;
constexpr std::size_t N = AR_UTF8_TRAILING_WINDOW_SIZE;
using vhc::text;
#ifndef VH_NATIVE
struct view { std::string_view s; std::size_t max, end; std::uint8_t w[N]; };
static bool implies(bool a, bool b) { return __v_or(__v_not(a), b); }
// Ghost functions of the offset in the text, for the line under study, which starts at base: whether a code point starts there (or the
// text ends), the columns from base up to there, the classes before it (newest first), whether the rules allow a break there.
static std::uint64_t base, some, here;   // some: an arbitrary offset; here: how far the scan has come
static unsigned stage;   // of the proof that the invariant holds: on entry, before and after an arbitrary iteration
static bool starts(std::uint64_t off) { return __v_uf("starts", 1, 1, off); }
static std::uint64_t cols(std::uint64_t off) { return __v_uf("cols", 2 * vh::max_text, 1, off); }
static unsigned win(std::uint64_t off, unsigned i) { return __v_uf("win", vhc::lb_classes - 1, 2, off, std::uint64_t{i}); }
static bool opp(std::uint64_t off) { return __v_uf("opp", 1, 1, off); }
static bool white(std::uint64_t off) { return __v_uf("white", 1, 1, off); }   // the code point at off is whitespace
static std::uint64_t length(std::uint64_t off) { return vhc::length_by(static_cast<std::uint8_t>(text[off])); }
static bool whole(std::uint64_t off) { return length(off) <= text.size() - off; }
static std::uint64_t next(std::uint64_t off) { const auto n = length(off); return __v_ite(n <= text.size() - off, off + n, text.size()); }
// what the rules say about a window and the next class: C25.cpp decides that it is UAX #14
static bool allowed(const std::uint8_t* w, std::uint8_t b)
{
    static_assert(N == 16);
    return __v_uf("allowed", 1, 17, (std::uint64_t)w[0], (std::uint64_t)w[1], (std::uint64_t)w[2], (std::uint64_t)w[3], (std::uint64_t)w[4], (std::uint64_t)w[5], (std::uint64_t)w[6], (std::uint64_t)w[7], (std::uint64_t)w[8],
                  (std::uint64_t)w[9], (std::uint64_t)w[10], (std::uint64_t)w[11], (std::uint64_t)w[12], (std::uint64_t)w[13], (std::uint64_t)w[14], (std::uint64_t)w[15], (std::uint64_t)b);
}
static void begin(std::uint64_t off)
{
    __v_assume(starts(off));
    __v_assume(cols(off) == 0);
    for (unsigned i = 0; i < N; ++i) __v_assume(win(off, i) == lbr::any);
}
// the definitions for the step from off, where a code point starts
static void define(std::uint64_t off)
{
    if (off >= text.size()) return;
    const auto to = next(off);
    __v_assume(starts(to));
    __v_assume(implies(__v_and(off < some, some < to), __v_not(starts(some))));
    const bool w = whole(off);
    __v_assume(white(off) == __v_and(w, vhc::ws(vhc::value_at(off))));
    __v_assume(cols(to) == cols(off) + __v_ite(w, vhc::columns(vhc::value_at(off)), 0));
}
static void define_window(std::uint64_t off)
{
    if (off >= text.size()) return;
    const auto to = next(off);
    const bool w = whole(off);
    std::uint8_t n[N];
    const unsigned a = vhc::lb(vhc::value_at(off));
    for (unsigned i = 0; i < N; ++i) n[i] = static_cast<std::uint8_t>(i == 0 ? a : win(off, i - 1));
    if (win(off, N - 1) == lbr::RI && win(off, N - 2) == lbr::RI) n[N - 1] = lbr::any;   // drop them in pairs
    if (!w) {   // a truncated code point ends the text
        for (unsigned i = 0; i < N; ++i) __v_assume(win(to, i) == win(off, i));
        return;
    }
    for (unsigned i = 0; i < N; ++i) __v_assume(win(to, i) == n[i]);
    std::uint64_t b = lbr::any;
    if (to < text.size()) b = __v_ite(whole(to), vhc::lb(vhc::value_at(to)), lbr::any);
    __v_assume(opp(to) == allowed(n, static_cast<std::uint8_t>(b)));
}
namespace vhc
{
VH_CONTRACT("^arg_router::utility::utf8::line_iterator::should_break(")
bool lb_break(const u8::line_iterator* it, std::uint8_t next) { return allowed(reinterpret_cast<const view*>(it)->w, next); }
}  // namespace vhc
// C23_loops.cpp proves these of a text that is one piece, as a code point iterator gives it
namespace vhc
{
static void one_piece(std::string_view s)
{
    VH_ASSERT(s.empty() || s.size() <= length_by(static_cast<std::uint8_t>(s[0])), "asked about one code point");
}
VH_CONTRACT("^arg_router::utility::utf8::terminal_width(")
std::size_t width_of(std::string_view s)
{
    if (s.empty()) return 0;
    one_piece(s);
    return __v_ite(length_by(static_cast<std::uint8_t>(s[0])) <= s.size(), columns(value_at(at(s.data()))), 0);
}
VH_CONTRACT("^arg_router::utility::utf8::is_whitespace(")
bool is_white(std::string_view s)
{
    if (s.empty()) return false;
    return __v_and(length_by(static_cast<std::uint8_t>(s[0])) <= s.size(), ws(value_at(at(s.data()))));
}
VH_CONTRACT("^arg_router::utility::utf8::line_iterator::extract_class(")
std::uint8_t lb_class(cp_t cp) { return static_cast<std::uint8_t>(lb(cp)); }
}  // namespace vhc
// skipping the whitespace after the previous line
VH_LOOP("^arg_router::utility::utf8::line_iterator::consume(", 0, "this,__begin,__end,bytes")
std::uint64_t in_spaces(unsigned phase, view* self, cpn::iterator* it, cpn::iterator* end, std::size_t* bytes)
{
    const auto from = vhc::at(self->s.data());
    if (phase) {
        vh::havoc(*bytes, *it);
        vh::upto(*bytes, vh::max_text);
        __v_assume(*bytes <= self->s.size());
        *it = cpn::iterator{self->s.substr(*bytes)};
        return 1;
    }
    const auto& rest = *reinterpret_cast<std::string_view*>(it);
    const auto off = from + *bytes;
    if (*bytes > self->s.size()) return 0;
    stage = 0;
    __v_assume(starts(from));
    define(off);
    auto ok = __v_and(rest.data() == text.data() + off, rest.size() == text.size() - off);
    ok = __v_and(ok, __v_and(self->s.size() == text.size() - from, reinterpret_cast<std::string_view*>(end)->empty()));
    ok = __v_and(ok, starts(off));
    ok = __v_and(ok, implies(__v_and(starts(some), __v_and(from <= some, some < off)), white(some)));
    return __v_ite(ok, 1 + text.size() - off, 0);
}
VH_LOOP("^arg_router::utility::utf8::line_iterator::consume(", 1, "this,it,column,bytes,line_break_column,line_break_byte")
std::uint64_t in_line(unsigned phase, view* self, cpn::iterator* it, std::size_t* column, std::size_t* bytes, std::size_t* lbc, std::size_t* lbb)
{
    if (phase) {
        stage = 1;
        vh::havoc(self->w, *it, *column, *bytes, *lbc, *lbb);
        vh::upto(*bytes, vh::max_text); vh::upto(*column, 2 * vh::max_text); vh::upto(*lbc, 2 * vh::max_text); vh::upto(*lbb, vh::max_text);
        __v_assume(*bytes <= self->s.size());
        *it = cpn::iterator{self->s.substr(*bytes)};
        for (unsigned i = 0; i < N; ++i) self->w[i] = static_cast<std::uint8_t>(win(vhc::at(self->s.data()) + *bytes, i));
        return 1;
    }
    base = vhc::at(self->s.data());
    const auto& rest = *reinterpret_cast<std::string_view*>(it);
    if (*bytes > self->s.size()) return 0;
    const auto off = here = base + *bytes, lb = base + *lbb;
    begin(base);
    define(base);
    if (stage == 1) { define(off); define_window(off); stage = 2; }
    auto ok = __v_and(rest.data() == text.data() + off, rest.size() == text.size() - off);
    ok = __v_and(ok, __v_and(self->s.size() == text.size() - base, self->end == 0));
    ok = __v_and(ok, starts(off));
    ok = __v_and(ok, *column == cols(off));
    ok = __v_and(ok, __v_or(cols(off) <= self->max, off == next(base)));
    ok = __v_and(ok, __v_and(*lbb <= *bytes, __v_and(*lbc == cols(lb), *lbc <= *column)));
    ok = __v_and(ok, __v_and(starts(lb), __v_or(lb == base, opp(lb))));
    ok = __v_and(ok, __v_or(cols(lb) <= self->max, lb == next(base)));
    if (some == off) ok = __v_and(ok, __v_or(__v_not(opp(off)), __v_or(lb == off, off == text.size())));
    else ok = __v_and(ok, implies(__v_and(starts(some), __v_and(lb < some, some < off)), __v_not(opp(some))));
    ok = __v_and(ok, implies(__v_and(starts(some), some <= off), __v_or(some < base, cols(some) <= cols(off))));
    ok = __v_and(ok, implies(__v_and(starts(some), some <= lb), __v_or(some < base, cols(some) <= cols(lb))));
    for (unsigned i = 0; i < N; ++i) ok = __v_and(ok, self->w[i] == win(off, i));
    return __v_ite(ok, 1 + text.size() - off, 0);
}
// what is asked of the line [base, base + n) of a text with the limit max
static void line_is(std::string_view line, std::size_t max)
{
    const auto to = base + line.size();
    VH_ASSERT(line.data() == text.data() + base, "directly at the start");
    VH_ASSERT(line.size() >= 1 && to <= text.size(), "not empty");
    VH_ASSERT(starts(to), "ends where a code point ends");
    VH_ASSERT(__v_or(cols(to) <= max, to == next(base)), "fits the width, unless it is one code point");
    if (to == text.size()) { VH_COVER("the rest"); return; }
    // the scan ended at the first code point that does not fit
    VH_COVER("broken");
    VH_ASSERT(here < text.size() && to <= here && starts(here), "broken only when the rest does not fit");
    define(here);
    VH_ASSERT(cols(next(here)) > max, "the next code point does not fit");
    const bool inside = __v_and(starts(some), __v_and(base < some, some <= here));
    if (__v_and(opp(to), cols(to) > 0)) {
        VH_COVER("at an opportunity");
        VH_ASSERT(implies(__v_and(inside, some > to), __v_not(opp(some))), "the last opportunity that fits");
    } else {
        VH_COVER("forced");
        VH_ASSERT(to == here, "as late as possible");
        VH_ASSERT(implies(inside, __v_or(__v_not(opp(some)), cols(some) == 0)), "only where there is no opportunity");
    }
}
#endif
// @entry first native=no ghost=yes
VH_ENTRY(first)
{
#ifndef VH_NATIVE
    VH_LAYOUT(view, u8::line_iterator);
    text = vh::bytes("text");
    some = vh::any<std::uint64_t>("some", 0, vh::max_text);
    const auto max = vh::any<std::uint64_t>("max", 0, vh::max_text);
    const auto it = u8::line_iterator{text, max};
    const auto end = u8::line_iterator{};
    if (text.empty() || max == 0) { VH_COVER("nothing"); VH_ASSERT(it == end && !(it != end), "no line"); return; }
    VH_ASSERT(!(it == end) && it != end, "a line");
    VH_ASSERT(it.max_columns() == max, "the limit");
    base = 0;
    line_is(*it, max);
#endif
}
// @entry next native=no ghost=yes
VH_ENTRY(next)
{
#ifndef VH_NATIVE
    VH_LAYOUT(view, u8::line_iterator);
    text = vh::bytes("text");
    some = vh::any<std::uint64_t>("some", 0, vh::max_text);
    const auto max = vh::any<std::uint64_t>("max", 1, vh::max_text);
    // any iterator on a line: what is left starts with the line
    auto it = u8::line_iterator{};
    auto& v = reinterpret_cast<view&>(it);
    for (auto& c : v.w) c = vh::any<std::uint8_t>("before", 0, vhc::lb_classes - 1);
    const auto from = vh::any<std::uint64_t>("from", 0, vh::max_text), n = vh::any<std::uint64_t>("line", 1, vh::max_text);
    __v_assume(from + n <= text.size());
    __v_assume(from < text.size());
    v.s = text.substr(from); v.max = max; v.end = n;
    auto old = it;
    ++it;
    const auto left = v.s.size();
    const auto at = text.size() - left;
    VH_ASSERT(left <= text.size() - (from + n), "after the line");
    VH_ASSERT(implies(__v_and(starts(some), __v_and(from + n <= some, some < at)), white(some)), "only whitespace is dropped");
    VH_ASSERT(starts(at), "whole code points of it");
    if (left == 0) { VH_COVER("the end"); VH_ASSERT(it == u8::line_iterator{}, "no line"); return; }
    VH_ASSERT(v.s.data() == text.data() + at && base == at, "the next line follows");
    VH_ASSERT(__v_not(white(at)), "all the whitespace");
    VH_ASSERT(it != u8::line_iterator{} && !(it == u8::line_iterator{}) && it != old, "another line");
    VH_ASSERT(it.max_columns() == max, "the limit");
    line_is(*it, max);
#endif
}

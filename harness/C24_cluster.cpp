// C24: where a cluster ends, for every text of any length (loop invariant on the real loop).
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts_cp.hpp"
#include "gcb_rules.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
namespace cpn = ar::utility::utf8::code_point;
VH_DICT("", "a", "ab", "\r\n", "e\xCC\x81", "\xF0\x9F\x87\xAC\xF0\x9F\x87\xA7", "\xF0\x9F\x91\xA9\xE2\x80\x8D\xF0\x9F\x91\xA6", "\xE1\x84\x80\xE1\x85\xA0\xE1\x86\xA8", "\xC3", "\xE2\x82", "\x80", "\xFF");

// Ghost functions of the offset from the start of the cluster: whether a code point starts there (or the text ends), class of the
// code point before it, whether that one is the last of an odd number of regional indicators.
using vhc::text;
static std::uint64_t some;   // an arbitrary offset
static unsigned cls(std::uint64_t off)   // class of the code point at off
{
    const auto whole = vhc::length_by(static_cast<std::uint8_t>(text[off])) <= text.size() - off;
    return __v_ite(whole, vhc::gcb(vhc::value_at(off)), Other);
}
#ifndef VH_NATIVE
static bool starts(std::uint64_t off) { return __v_uf("starts", 1, 1, off); }
static unsigned before(std::uint64_t off) { return __v_uf("before", vhc::gcb_classes - 1, 1, off); }
static bool odd(std::uint64_t off) { return __v_uf("odd", 1, 1, off); }
static bool joins(std::uint64_t off) { return __v_uf("joins", 1, 1, off); }
static bool implies(bool a, bool b) { return __v_or(__v_not(a), b); }
static bool iff(bool a, bool b) { return a == b; }
// the definitions, at off and for the step from it
static void define(std::uint64_t off)
{
    __v_assume(__v_and(starts(0), __v_and(before(0) == Other, __v_not(odd(0)))));
    if (off >= text.size()) return;
    const auto a = cls(off);
    const auto next = off + vhc::length_by(static_cast<std::uint8_t>(text[off]));
    __v_assume(iff(joins(off), joined(before(off), a, odd(off))));
    const auto to = next < text.size() ? next : text.size();
    __v_assume(starts(to));
    __v_assume(before(to) == a);
    __v_assume(iff(odd(to), __v_and(a == RI, __v_not(odd(off)))));
    __v_assume(implies(__v_and(off < some, some < to), __v_not(starts(some))));
}
struct view { std::size_t current; std::string_view s; std::uint8_t w[AR_UTF8_TRAILING_WINDOW_SIZE]; };
// C24.cpp decides both of these: the class is the table's, and which windows and next classes allow a boundary
namespace vhc
{
VH_CONTRACT("^arg_router::utility::utf8::iterator::extract_class(")
std::uint8_t gcb_class(cp_t cp) { return static_cast<std::uint8_t>(gcb(cp)); }
VH_CONTRACT("^arg_router::utility::utf8::iterator::should_break(")
bool gcb_break(const u8::iterator* it, std::uint8_t next)
{
    const auto& w = reinterpret_cast<const view*>(it)->w;
    bool odd = false;
    for (std::size_t i = sizeof(w); i > 0; --i) odd = __v_and(w[i - 1] == RI, __v_not(odd));
    return __v_not(joined(w[0], next, odd));
}
}  // namespace vhc
VH_LOOP("^arg_router::utility::utf8::iterator::update_current(", 0, "this,it")
std::uint64_t in_cluster(unsigned phase, view* self, cpn::iterator* it)
{
    if (phase) {
        vh::havoc(self->current, self->w, *it);
        vh::upto(self->current, vh::max_text);
        __v_assume(self->current <= text.size());
        *it = cpn::iterator{text.substr(self->current)};
        return 1;
    }
    const auto& rest = *reinterpret_cast<std::string_view*>(it);
    const auto off = self->current;
    if (off > text.size()) return 0;
    define(off);
    const auto* w = self->w;
    const bool ri0 = w[0] == RI, ri1 = __v_and(ri0, w[1] == RI), ri2 = __v_and(ri1, w[2] == RI);
    auto ok = __v_and(rest.data() == text.data() + off, rest.size() == text.size() - off);
    ok = __v_and(ok, __v_and(self->s.data() == text.data(), self->s.size() == text.size()));
    ok = __v_and(ok, starts(off));
    if (off < text.size()) {   // after a truncated code point, which only the end can be, the window stays as it was
        ok = __v_and(ok, w[0] == before(off));
        ok = __v_and(ok, __v_and(__v_not(ri2), iff(__v_and(ri0, __v_not(ri1)), odd(off))));
    }
    ok = __v_and(ok, implies(__v_and(off > 0, off < text.size()), joins(off)));
    ok = __v_and(ok, implies(__v_and(starts(some), __v_and(some > 0, some < off)), joins(some)));
    return __v_ite(ok, 1 + text.size() - off, 0);
}
#endif
// @entry cluster native=no ghost=yes
VH_ENTRY(cluster)
{
#ifndef VH_NATIVE
    VH_LAYOUT(view, u8::iterator);
    text = vh::bytes("text");
    some = vh::any<std::uint64_t>("some", 0, vh::max_text);
    const auto c = *u8::iterator{text};
    VH_ASSERT(c.data() == text.data() && c.size() <= text.size(), "at the front of the text");
    if (text.empty()) { VH_COVER("empty"); return; }
    VH_ASSERT(!c.empty(), "not empty");
    VH_ASSERT(starts(c.size()), "ends where a code point ends");
    VH_ASSERT(implies(__v_and(starts(some), __v_and(some > 0, some < c.size())), joins(some)), "no boundary inside");
    VH_COVER("a cluster");
    if (c.size() < text.size()) { define(c.size()); VH_COVER("more"); VH_ASSERT(__v_not(joins(c.size())), "ends at a boundary"); }
#endif
}

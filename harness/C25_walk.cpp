// C25: a whole wrapped text: it ends, and the lines are the text without the whitespace dropped between them.
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts_cp.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
VH_DICT("", "a", "ab ", "hello world", "e\xCC\x81", "\xF0\x9F\x87\xAC\xF0\x9F\x87\xA7 ", "aaa bbb\tccc", "\xE1\x84\x80\xE1\x85\xA0\xE1\x86\xA8", "\xC3", "\xE2\x82", "\x80", "\xFF", "\xE4\xBD\xA0\xE5\xA5\xBD");
#ifndef VH_NATIVE
// C25_line.cpp proves this of the step to the next line: what is dropped and the length of the line depend on the place alone
static std::uint64_t length_at(std::uint64_t off) { return __v_uf("line", vh::max_text, 1, off); }
static std::uint64_t dropped_at(std::uint64_t off) { return __v_uf("dropped", vh::max_text, 1, off); }
struct view { std::string_view s; std::size_t max, end; std::uint8_t w[AR_UTF8_TRAILING_WINDOW_SIZE]; };
namespace vhc
{
VH_CONTRACT("^arg_router::utility::utf8::line_iterator::consume(")
void next_line(u8::line_iterator* it)
{
    auto& v = *reinterpret_cast<view*>(it);
    if (v.s.empty()) return;
    if (v.end != 0) {
        VH_ASSERT(v.end <= v.s.size(), "a line of the text");
        v.s.remove_prefix(v.end);
        v.end = 0;
        if (v.s.empty()) return;
        const auto n = dropped_at(at(v.s.data()));
        __v_assume(n <= v.s.size());
        v.s.remove_prefix(n);
        if (v.s.empty()) return;
    }
    v.end = length_at(at(v.s.data()));
    __v_assume(__v_and(v.end >= 1, v.end <= v.s.size()));
}
}  // namespace vhc
VH_LOOP("^walk(", 0, "it,from,seen,text")
std::uint64_t in_walk(unsigned phase, view* it, const char** from, std::size_t* seen, std::string_view* text)
{
    if (phase) {
        vh::havoc(it->s, it->end, it->w, *from, *seen);
        std::size_t off = 0, was = 0;
        vh::upto(off, vh::max_text); vh::upto(was, vh::max_text);
        __v_assume(off <= text->size());
        __v_assume(was <= text->size());
        it->s = text->substr(off);
        *from = text->data() + was;
        vh::upto(it->end, vh::max_text); vh::upto(*seen, vh::max_text);
        return 1;
    }
    const auto left = it->s.size();
    const auto off = text->size() - left;
    auto ok = __v_and(left <= text->size(), it->s.data() == text->data() + off);
    ok = __v_and(ok, __v_or(left == 0, __v_and(it->end >= 1, it->end <= left)));
    ok = __v_and(ok, __v_and(*from >= text->data(), *from <= it->s.data()));
    ok = __v_and(ok, *seen <= static_cast<std::size_t>(*from - text->data()));
    return __v_ite(ok, 1 + left, 0);
}
#endif
static void walk(std::string_view text, std::size_t max)
{
    const char* from = text.data();
    std::size_t seen = 0;
    for (auto it = u8::line_iterator{text, max}; it != u8::line_iterator{}; ++it) {
        const auto line = *it;
        VH_ASSERT(!line.empty() && line.data() >= from, "after the line before");
        VH_ASSERT(line.data() + line.size() <= text.data() + text.size(), "within the text");
#ifdef VH_NATIVE
        for (auto c : u8::code_point::iterator::range({from, static_cast<std::size_t>(line.data() - from)})) VH_ASSERT(u8::is_whitespace(c), "only whitespace is dropped");
#endif
        from = line.data() + line.size();
        seen += line.size();
    }
    VH_ASSERT(seen <= text.size(), "no line twice");
    VH_COVER("wrapped");
#ifdef VH_NATIVE
    for (auto c : u8::code_point::iterator::range({from, static_cast<std::size_t>(text.data() + text.size() - from)})) VH_ASSERT(max == 0 || u8::is_whitespace(c), "only whitespace is left");
#endif
}
// @entry lines ghost=yes
VH_ENTRY(lines)
{
    VH_LAYOUT(view, u8::line_iterator);
    const auto s = vhc::text = vh::bytes("text");
    const auto max = vh::any<std::uint64_t>("max", 1, 100);
    walk(s, max);
}

// C24: whatever the bytes, the clusters are consecutive pieces of the text.
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts_cp.hpp"
namespace ar = arg_router;
namespace u8 = ar::utility::utf8;
VH_DICT("", "a", "ab", "\r\n", "e\xCC\x81", "\xF0\x9F\x87\xAC\xF0\x9F\x87\xA7", "\xF0\x9F\x91\xA9\xE2\x80\x8D\xF0\x9F\x91\xA6", "\xE1\x84\x80\xE1\x85\xA0\xE1\x86\xA8", "\xC3", "\xE2\x82", "\x80", "\xFF");
#ifndef VH_NATIVE
// C24_cluster.cpp proves that a cluster is a non-empty piece at the front of what is left; its length depends on the place alone.
static std::uint64_t length_at(std::uint64_t off) { return __v_uf("cluster", vh::max_text, 1, off); }
struct view { std::size_t current; std::string_view s; std::uint8_t w[AR_UTF8_TRAILING_WINDOW_SIZE]; };
namespace vhc
{
VH_CONTRACT("^arg_router::utility::utf8::iterator::update_current(")
void next_cluster(u8::iterator* it)
{
    auto& v = *reinterpret_cast<view*>(it);
    v.current = 0;
    if (v.s.empty()) return;
    v.current = length_at(at(v.s.data()));
    __v_assume(__v_and(v.current >= 1, v.current <= v.s.size()));
}
}  // namespace vhc
static std::uint64_t pieces_to(std::uint64_t off) { return __v_uf("pieces", vh::max_text, 1, off); }
static bool starts(std::uint64_t off) { return __v_uf("starts", 1, 1, off); }
static std::uint64_t walked(view* it)   // the iterator is at the start of a piece, or the end
{
    const auto off = vhc::text.size() - it->s.size();
    auto ok = __v_and(it->s.size() <= vhc::text.size(), it->s.data() == vhc::text.data() + off);
    __v_assume(pieces_to(0) == 0);
    __v_assume(starts(0));
    if (off < vhc::text.size()) {
        const auto n = length_at(off);
        __v_assume(pieces_to(off + n) == pieces_to(off) + 1);
        __v_assume(starts(off + n));
        ok = __v_and(ok, it->current == n);
        ok = __v_and(ok, __v_and(n >= 1, n <= it->s.size()));
    } else ok = __v_and(ok, it->current == 0);
    ok = __v_and(ok, starts(off));
    return __v_ite(ok, 1 + it->s.size(), 0);
}
static void anywhere(view* it)
{
    vh::havoc(*it);
    std::size_t off = 0;
    vh::upto(off, vh::max_text);
    __v_assume(off <= vhc::text.size());
    it->s = vhc::text.substr(off);
    vh::upto(it->current, vh::max_text);
}
VH_LOOP("^std::iterator_traits<arg_router::utility::utf8::iterator>::difference_type std::__distance<arg_router::utility::utf8::iterator>(", 0, "__first,__n")
std::uint64_t in_distance(unsigned phase, view* first, std::int64_t* n)
{
    if (phase) { anywhere(first); vh::havoc(*n); vh::upto(*n, vh::max_text); return 1; }
    const auto w = walked(first);
    return __v_ite(static_cast<std::uint64_t>(*n) == pieces_to(vhc::text.size() - first->s.size()), w, 0);
}
VH_LOOP("^walk(", 0, "__begin,__end,n,p")
std::uint64_t in_walk(unsigned phase, view* it, view* end, std::size_t* n, const char** p)
{
    if (phase) { anywhere(it); vh::havoc(*n); vh::upto(*n, vh::max_text); vh::havoc(*p); *p = it->s.data(); return 1; }
    const auto w = walked(it);
    auto ok = __v_and(*n == pieces_to(vhc::text.size() - it->s.size()), *p == it->s.data());
    return __v_ite(__v_and(ok, end->s.empty()), w, 0);
}
#endif
// Whatever the bytes: a cluster is a non-empty piece at the front of what is left, and the next follows directly.
// @entry step ghost=yes
VH_ENTRY(step)
{
    VH_LAYOUT(view, u8::iterator);
    const auto s = vhc::text = vh::bytes("text");
    auto it = u8::iterator{s};
    const auto end = u8::iterator{};
    if (s.empty()) { VH_COVER("nothing left"); VH_ASSERT(it == end && !(it != end), "the end"); return; }
    VH_ASSERT(!(it == end) && it != end, "not the end");
    const auto c = *it;
    VH_ASSERT(c.data() == s.data(), "at the front");
    VH_ASSERT(c.size() >= 1, "not empty");
    VH_ASSERT(c.size() <= s.size(), "within the text");
    VH_COVER("a cluster");
    const auto rest = s.substr(c.size());
    auto old = it++;
    VH_ASSERT(*old == c, "the old position");
    VH_ASSERT(it == u8::iterator{rest}, "after the cluster");
    if (!rest.empty()) VH_ASSERT((*it).data() == rest.data(), "the next follows directly");
}
// @entry range ghost=yes
static std::size_t walk(std::string_view s)
{
    std::size_t n = 0;
    const char* p = s.data();
    for (auto c : u8::iterator::range(s)) {
        VH_ASSERT(c.data() == p && !c.empty(), "one after the other");
        p += c.size();
        ++n;
    }
    VH_ASSERT(p == s.data() + s.size(), "to the end");
    return n;
}
VH_ENTRY(range)
{
    VH_LAYOUT(view, u8::iterator);
    const auto s = vhc::text = vh::bytes("text");
    const auto n = walk(s);
    VH_ASSERT(u8::count(s) == n, "counted");
    VH_COVER("iterated");
}

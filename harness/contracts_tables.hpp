// Contract of the table lookup: which row a code point has is an unknown function of the code point, one per table.  C23 proves
// that the real lookup on the real tables is such a function (and that it is Unicode's).
#pragma once
#include <arg_router/utility/utf8.hpp>
#include "unicode14.hpp"
namespace vhc
{
namespace u8 = arg_router::utility::utf8;
using cp_t = std::uint32_t;
constexpr unsigned gcb_classes = 15, lb_classes = 39;
#ifdef VH_NATIVE
template <std::size_t N>
inline unsigned run_value(const std::uint32_t (&runs)[N], cp_t cp)
{
    std::size_t i = 0;
    while (i + 1 < N && (runs[i + 1] >> 8) <= cp) ++i;
    return runs[i] & 0xFF;
}
inline unsigned gcb(cp_t cp) { return run_value(unicode14::gcb, cp); }
inline unsigned lb(cp_t cp) { return run_value(unicode14::lb, cp); }
inline bool ws(cp_t cp) { return run_value(unicode14::ws, cp); }
inline bool dw(cp_t cp) { return run_value(unicode14::dw, cp); }
inline bool zw(cp_t cp) { return run_value(unicode14::zw, cp); }
#else
inline unsigned gcb(cp_t cp) { return __v_uf("gcb", gcb_classes - 1, 1, std::uint64_t{cp}); }
inline unsigned lb(cp_t cp) { return __v_uf("lb", lb_classes - 1, 1, std::uint64_t{cp}); }
inline bool ws(cp_t cp) { return __v_uf("ws", 1, 1, std::uint64_t{cp}); }
inline bool dw(cp_t cp) { return __v_uf("dw", 1, 1, std::uint64_t{cp}); }
inline bool zw(cp_t cp) { return __v_uf("zw", 1, 1, std::uint64_t{cp}); }
VH_CONTRACT("arg_router::utility::utf8::detail::find_range<")
std::optional<u8::code_point::range> find_range(const void* table, cp_t cp)
{
    unsigned meta = 0;
    bool listed = false;
    if (table == &u8::grapheme_cluster_break_table) { meta = gcb(cp); listed = meta != 0; }
    else if (table == &u8::line_break_table) { meta = lb(cp); listed = meta != 0; }
    else if (table == &u8::whitespace_table) listed = ws(cp);
    else if (table == &u8::double_width_table) listed = dw(cp);
    else if (table == &u8::zero_width_table) listed = zw(cp);
    std::optional<u8::code_point::range> r{u8::code_point::range{cp, cp, static_cast<std::uint8_t>(meta)}};
    static_assert(sizeof(r) == sizeof(u8::code_point::range) + 1);
    reinterpret_cast<bool*>(&r)[sizeof(u8::code_point::range)] = listed;
    return r;
}
#endif
// columns of a code point on a terminal
inline std::size_t columns(cp_t cp) { return __v_ite(dw(cp), 2, __v_ite(zw(cp), 0, 1)); }

// a text of well-formed code points (RFC 3629)
constexpr std::size_t most_cps = 24;
struct cps {
    char b[4 * most_cps + 1]; std::size_t bytes = 0;
    cp_t cp[most_cps]; std::size_t at[most_cps + 1] = {}; std::size_t n = 0;
    std::string_view text() const { return {b, bytes}; }
    void put(cp_t c, std::size_t len)
    {
        cp[n] = c;
        if (len == 1) b[bytes] = static_cast<char>(c);
        else {
            auto v = c;
            for (std::size_t i = len - 1; i > 0; --i) { b[bytes + i] = static_cast<char>(0x80 | (v & 0x3F)); v >>= 6; }
            b[bytes] = static_cast<char>((len == 2 ? 0xC0 : len == 3 ? 0xE0 : 0xF0) | v);
        }
        bytes += len;
        at[++n] = bytes;
    }
    // one more arbitrary code point whose encoding has from..to bytes
    void any(std::size_t from = 1, std::size_t to = 4)
    {
        constexpr cp_t lo[] = {0, 0, 0x80, 0x800, 0x10000}, hi[] = {0, 0x7F, 0x7FF, 0xFFFF, 0x10FFFF};
#ifdef VH_NATIVE
        // of the classes that matter, mostly
        static const cp_t some[] = {'a', ' ', '\t', '-', '(', ')', '"', '1', '$', '%', ',', '/', '!', '\r', '\n', 0x85, 0xA0, 0x301, 0x200D, 0x1F1E6, 0x1F1FF, 0x600, 0x903, 0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, 0x1F600, 0x1F3FB, 0x4E00, 0x3000, 0x2060, 0x200B, 0x5D0, 0x2014, 0x3005, 0x2024, 0xFFFC, 0x1F466, 0xBB, 0x2028, 0xB4, 0x110BD};
        const auto k = vh::any<std::uint32_t>("kind", 0, 59);
        if (k < sizeof(some) / sizeof(some[0])) {
            const auto c = some[k];
            put(c, c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4);
            return;
        }
#endif
        auto len = from;
        while (len < to && vh::any<std::uint8_t>("longer", 0, 1)) ++len;
        static const char* const name[] = {"", "cp", "cp2", "cp3", "cp4"};
        auto c = vh::any<std::uint32_t>(name[len], lo[len], hi[len]);
#ifdef VH_NATIVE
        if (c >= 0xD800 && c <= 0xDFFF) c = 0x4E00;
#endif
        put(c, len);
    }
};
}  // namespace vhc

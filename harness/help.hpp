// Shared parts of the help output harnesses.
#pragma once
#include "node.hpp"
#include <sys/ioctl.h>
#include <sstream>

namespace vh
{
inline constexpr std::size_t out_max = 4096;
// what was written to the output stream, and what should have been
inline char written[out_max], expected[out_max];
inline std::size_t n_written, n_expected;
inline unsigned columns;   // width of the terminal
inline int shown;          // router calls

inline void put(std::string_view t)
{
    for (const char c : t)
        if (n_expected < out_max) expected[n_expected++] = c;
}
inline void spaces(std::size_t n)
{
    while (n--) put(" ");
}
}  // namespace vh

#ifdef VH_NATIVE
extern "C" int vh_ioctl(int, unsigned long, void*) __asm__("ioctl");
extern "C" __attribute__((used)) int vh_ioctl(int, unsigned long, void* p)
{
    static_cast<winsize*>(p)->ws_col = static_cast<unsigned short>(vh::columns);
    return vh::columns ? 0 : -1;
}
#else
namespace vhc
{
VH_CONTRACT("ioctl")
int ioctl_(int, unsigned long, void* p)
{
    static_cast<winsize*>(p)->ws_col = static_cast<unsigned short>(vh::columns);
    return vh::columns ? 0 : -1;
}
// Output streams: only what is written to them is modelled (text, width and padding with spaces)
inline std::ptrdiff_t vtab[8];
inline void make_stream(void* self)
{
    constexpr std::ptrdiff_t base = 112;   // where the std::ios_base of a libstdc++ ostringstream is
    static_assert(sizeof(std::ostringstream) > base + sizeof(std::ios_base));
    vtab[0] = base;
    *static_cast<void**>(self) = &vtab[3];
    reinterpret_cast<std::ios_base*>(static_cast<char*>(self) + base)->width(0);
}
VH_CONTRACT("std::__cxx11::basic_ostringstream<char*>::basic_ostringstream()")
void oss_ctor(void* self) { make_stream(self); }
VH_CONTRACT("std::__cxx11::basic_ostringstream<char*>::basic_ostringstream(std::__cxx11::basic_ostringstream<char*>&&)")
void oss_move(void* self, void*) { make_stream(self); }
VH_CONTRACT("std::__cxx11::basic_ostringstream<char*>::~basic_ostringstream()")
void oss_dtor(void*) {}
VH_CONTRACT("*std::operator<<<char, std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, std::_Setw)")
std::ostream& setw_(std::ostream& os, std::_Setw w) { os.width(w._M_n); return os; }
inline void write_(const char* p, std::streamsize n)
{
    for (std::streamsize i = 0; i < n; ++i)
        if (vh::n_written < vh::out_max) vh::written[vh::n_written++] = p[i];
}
VH_CONTRACT("*std::__ostream_insert<char*")
std::ostream& insert_(std::ostream& os, const char* p, std::streamsize n)
{
    for (auto w = os.width(0); w > n; --w) write_(" ", 1);
    write_(p, n);
    return os;
}
VH_CONTRACT("*std::operator<<<std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, char)")
std::ostream& insert_char(std::ostream& os, char c) { return insert_(os, &c, 1); }
VH_CONTRACT("*std::operator<<<std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, char const*)")
std::ostream& insert_cstr(std::ostream& os, const char* p) { return insert_(os, p, __builtin_strlen(p)); }
VH_CONTRACT("std::ostream::put(char)")
std::ostream& put_(std::ostream& os, char c) { write_(&c, 1); return os; }
VH_CONTRACT("std::ostream::write(char const*, long)")
std::ostream& write__(std::ostream& os, const char* p, std::streamsize n) { write_(p, n); return os; }
}  // namespace vhc
#endif

namespace vh
{
template <typename S>
void record([[maybe_unused]] const S& s)
{
    ++shown;
#ifdef VH_NATIVE
    const auto t = s.str();
    for (const char c : t)
        if (n_written < out_max) written[n_written++] = c;
#endif
}
inline const auto capture = arp::router{[](ar::ostringstream s) { record(s); }};
inline void fresh()
{
    n_written = n_expected = 0;
    shown = 0;
    ec = {};
    ec_tokens.clear();
}
// one entry of the help text
struct entry_t { bool visible; std::size_t depth; std::string_view label, text; };
inline std::size_t width(std::string_view t)   // of one-column characters
{
    std::size_t w = 0;
    for (const char c : t) w += (c & 0xC0) != 0x80;
    return w;
}
template <std::size_t N>
void expect(const entry_t (&rows)[N], std::size_t indent = 4, std::size_t least = 8)
{
    std::size_t column = 0;
    for (auto& r : rows) column = std::max(column, r.depth * indent + width(r.label) + indent);
    const std::size_t fit = columns >= column + least ? columns - column : ~std::size_t{} - column;
    for (auto& r : rows) {
        if (!r.visible) continue;
        spaces(r.depth * indent);
        put(r.label);
        if (!r.text.empty()) {
            spaces(column - r.depth * indent - width(r.label));
            bool first = true;
            for (ar::utility::utf8::line_iterator it{r.text, fit}; it != ar::utility::utf8::line_iterator{}; ++it) {   // see C25
                if (!first) { put("\n"); spaces(column); }
                first = false;
                put(*it);
            }
        }
        put("\n");
    }
}
inline void compare()
{
    VH_ASSERT(n_written == n_expected, "as much text as there should be");
    for (std::size_t i = 0; i < n_expected; ++i)
        if (written[i] != expected[i]) { VH_ASSERT(false, "exactly the visible entries, in order, aligned and wrapped, with the texts configured"); return; }
    VH_ASSERT(true, "exactly the visible entries, in order, aligned and wrapped, with the texts configured");
}
}  // namespace vh

// Contracts of code_point::size and code_point::decode (C23 proves the real functions meet them): the length follows from the first
// byte, and the value, present unless the text is shorter than that, is a function of the bytes there.
#pragma once
#include "contracts_tables.hpp"
namespace vhc
{
inline std::string_view text;   // the text under study
inline std::uint64_t length_by(std::uint8_t first) { return __v_ite(first < 0x80, 1, __v_ite(first < 0xE0, 2, __v_ite(first < 0xF0, 3, 4))); }
inline std::uint64_t at(const char* p) { return static_cast<std::uint64_t>(p - text.data()); }
inline cp_t value_at(std::uint64_t off) { return static_cast<cp_t>(__v_uf("value", 0x1FFFFF, 1, off)); }
#ifndef VH_NATIVE
VH_CONTRACT("^arg_router::utility::utf8::code_point::size(")
std::size_t cp_size(std::string_view s)
{
    if (s.empty()) return 0;
    return length_by(static_cast<std::uint8_t>(s[0]));
}
VH_CONTRACT("^arg_router::utility::utf8::code_point::decode(")
std::optional<cp_t> cp_decode(std::string_view s)
{
    std::optional<cp_t> r{0};
    static_assert(sizeof(r) == 8);
    if (s.empty()) return {};
    reinterpret_cast<cp_t*>(&r)[0] = value_at(at(s.data()));
    reinterpret_cast<bool*>(&r)[4] = length_by(static_cast<std::uint8_t>(s[0])) <= s.size();
    return r;
}
#endif
}  // namespace vhc

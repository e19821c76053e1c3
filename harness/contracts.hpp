// Contracts on library functions outside arg_router (trusted, listed in the evidence of every check that uses them).
#pragma once
#ifndef VH_NATIVE
#    include <arg_router/parsing/token_type.hpp>
#    include <cstring>
namespace vhc
{
using tok = arg_router::parsing::token_type;
// libstdc++ element-wise construction/copy/move of a range of (trivially copyable) tokens == memmove of the range
VH_CONTRACT("^arg_router::parsing::token_type* std::__do_uninit_copy<*token_type*>(*!!reverse_iterator!!initializer")
tok* uninit_copy_tokens(const tok* f, const tok* l, tok* d)
{
    std::memmove((void*)d, (const void*)f, (const char*)l - (const char*)f);
    return (tok*)((char*)d + ((const char*)l - (const char*)f));
}
VH_CONTRACT("^arg_router::parsing::token_type* std::__relocate_a_1<arg_router::parsing::token_type*")
tok* relocate_tokens(tok* f, tok* l, tok* d, void*)
{
    std::memmove((void*)d, (const void*)f, (const char*)l - (const char*)f);
    return (tok*)((char*)d + ((const char*)l - (const char*)f));
}
// libstdc++ std::string::_M_replace_cold: replacing [p, p + n1) by n2 bytes of s that may overlap the string, how_much bytes follow
VH_CONTRACT("std::__cxx11::basic_string<char*::_M_replace_cold(char*, unsigned long, char const*, unsigned long, unsigned long)")
void replace_cold(void*, char* p, std::size_t n1, const char* s, std::size_t n2, std::size_t tail)
{
    if (n2 && n2 <= n1) std::memmove(p, s, n2);
    if (tail && n1 != n2) std::memmove(p + n2, p + n1, tail);
    if (n2 > n1) {
        if (s + n2 <= p + n1) std::memmove(p, s, n2);
        else if (s >= p + n1) std::memmove(p, p + ((s - p) + (n2 - n1)), n2);
        else {
            const std::size_t left = (p + n1) - s;
            std::memmove(p, s, left);
            std::memmove(p + left, p + n2, n2 - left);
        }
    }
}
}  // namespace vhc
#endif

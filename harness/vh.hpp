// Interface between the harnesses and the verifier (engine/) or the native replayer (harness/native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
#include <initializer_list>

extern "C" {
std::uint64_t __v_sym(unsigned width, const char* name, std::uint64_t lo, std::uint64_t hi);
void __v_assume(bool c);
void __v_assert(bool c, const char* label);
void __v_cover(const char* label);
void __v_cover_decl(const char* label);
bool __v_and(bool a, bool b);
bool __v_or(bool a, bool b);
bool __v_not(bool a);
std::uint64_t __v_ite(bool c, std::uint64_t a, std::uint64_t b);
bool __v_symbolic();
void __v_print(const char* label, std::uint64_t v);
const char* __v_bytes(const char* name, std::uint64_t max, bool nul, std::uint64_t* len);
std::uint64_t __v_tokens(const char* name, std::uint64_t max, void* vec);
std::uint64_t __v_args(const char* name, std::uint64_t max, void* vec);   // as __v_tokens, all without prefix
char** __v_argv(const char* name, std::uint64_t max, std::uint64_t* n);
bool __v_same_text(const void* p, std::uint64_t n, const void* q, std::uint64_t m);
// verifier only (used by contract stubs)
std::uint64_t __v_uf(const char* name, std::uint64_t max, unsigned n, ...);
std::uint64_t __v_ufptr(const char* name, std::uint64_t max, const void* p, std::uint64_t len);
std::uint64_t __v_havoc_int(unsigned width, std::uint64_t max);
void __v_havoc(void* p, std::uint64_t n);
void __v_undecided(const char* why);
}

#define VH_ENTRY(name) extern "C" __attribute__((used, noinline)) void vh_##name()
#define VH_ASSERT(c, label) __v_assert((c), label)
// a contract or an invariant looks at private members of T through a view of the same layout
#ifdef VH_NATIVE
#    define VH_LAYOUT(view, T) ((void)0)
#else
#    define VH_LAYOUT(view, T) do { if constexpr (sizeof(view) != sizeof(T)) __v_undecided("the members of " #T " are not the expected ones"); } while (false)
#endif
#define VH_COVER(label) __v_cover(label)
#ifdef VH_NATIVE
#    define VH_CONTRACT(glob)
#    define VH_LOOP(glob, n, vars)
#else
// Invariant of the n-th loop of the functions matching glob. The function below it has the signature
// std::uint64_t f(unsigned phase, T* var...): phase 0 returns 0 if the invariant does not hold and otherwise a number that
// decreases with every iteration; phase 1 gives the variables the loop changes any value (vh::havoc).
#    define VH_LOOP(glob, n, vars) __attribute__((annotate("arv.loop=" glob "#" #n "#" vars), used, noinline))
#    define VH_CONTRACT(glob) __attribute__((annotate("arv.replace=" glob), used, noinline))
#endif

namespace vh
{
inline constexpr std::uint64_t max_tokens = 1u << 20;   // tokens in an argument list
inline constexpr std::uint64_t max_text = 1u << 20;     // bytes in one argument

// words the native search builds inputs from (no effect in the verifier)
#ifdef VH_NATIVE
inline std::vector<std::string>& dict() { static std::vector<std::string> d; return d; }
inline bool& token_prefixes() { static bool b = false; return b; }
struct dict_init { dict_init(std::initializer_list<const char*> l, bool p) { for (auto* s : l) dict().push_back(s); token_prefixes() = p; } };
#    define VH_DICT(...) static const vh::dict_init vh_dict_init{{__VA_ARGS__}, false}
#    define VH_DICT_TOKENS(...) static const vh::dict_init vh_dict_init{{__VA_ARGS__}, true}
#else
#    define VH_DICT(...) static_assert(true)
#    define VH_DICT_TOKENS(...) static_assert(true)
#endif
inline bool same(std::string_view a, std::string_view b)
{
    return __v_same_text(a.data(), a.size(), b.data(), b.size());
}
inline std::string_view bytes(const char* name, std::uint64_t max = max_text, bool nul = false)
{
    std::uint64_t n = 0;
    const char* p = __v_bytes(name, max, nul, &n);
    return {p, n};
}
// for every i < n (n may be 0): one arbitrary i in the verifier, every i natively
template <typename F>
void forall(const char* name, std::uint64_t n, F&& f)
{
#ifdef VH_NATIVE
    for (std::uint64_t i = 0; i < n; ++i) f(i);
#else
    if (n == 0) return;
    const auto i = __v_sym(64, name, 0, 1ull << 40);
    __v_assume(i < n);
    f(i);
#endif
}
template <typename... T>
void havoc(T&... v)
{
    (__v_havoc(&v, sizeof(v)), ...);
}
template <typename T>   // after havoc: any value up to max
void upto(T& v, std::uint64_t max)
{
    v = static_cast<T>(__v_havoc_int(sizeof(T) * 8, max));
}
template <typename T>
T any(const char* name, T lo = 0, T hi = T(~T(0)))
{
    return static_cast<T>(__v_sym(sizeof(T) * 8, name, lo, hi));
}
}  // namespace vh

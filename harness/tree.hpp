// Shared parts of the tree-level harnesses.
#pragma once
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts.hpp"

namespace ar = arg_router;
namespace arp = ar::policy;
using namespace ar::literals;
using ar::parsing::prefix_type;
using ar::parsing::token_type;
using tokens_t = ar::vector<token_type>;
#include "contracts_utf8.hpp"

namespace vh
{
// what the last failing parse reported
inline ar::error_code ec;
inline tokens_t ec_tokens;
inline int router_calls;

struct parse_failed {};

// user-provided exception translator (a documented extension point): records code and tokens
template <typename T = void>
struct recording_translator {
    [[noreturn]] static void translate_exception(const ar::multi_lang_exception& e)
    {
        ec = e.ec();
        ec_tokens = e.tokens();
        throw parse_failed{};
    }
};
}  // namespace vh
template <>
struct arg_router::policy::is_policy<vh::recording_translator<>> : std::true_type {};

namespace vh
{
inline recording_translator<> rec;

enum class outcome { routed, failed, escaped };
template <typename Root>
outcome run(const Root& r, tokens_t args)
{
    try {
        r.parse(std::move(args));
    } catch (parse_failed&) {
        return outcome::failed;
    } catch (...) {
        return outcome::escaped;
    }
    return outcome::routed;
}
}  // namespace vh

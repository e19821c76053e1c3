// C32: a forwarding node passes everything after its name through unchanged.
#include "node.hpp"
VH_DICT("--", "--world", "--hello", "-w", "fwd", "", "v", "---", "x");

struct got_t { int calls; bool w, h; std::size_t n; std::string_view first, any, last; };
static got_t got;
static std::size_t pick;
static void routed(bool w, const ar::vector<std::string_view>& v)
{
    ++got.calls; got.w = w; got.n = v.size();
    if (v.size()) { got.first = v.front(); got.last = v.back(); }
    if (pick < v.size()) got.any = v[pick];
}
// n = index of the forwarding name, options before it are valid
struct meaning { bool ok = true; bool w = false, found = false; std::size_t at = 0; };
static meaning read(const tokens_t& a, std::string_view name)
{
    meaning m;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (vh::same(a[i].name, name)) { m.found = true; m.at = i; return m; }
        if (!vh::same(a[i].name, "--world") || m.w) { m.ok = false; return m; }
        m.w = true;
    }
    return m;
}
template <typename Root>
static void judge(const Root& r, std::string_view name, std::size_t mn, std::size_t mx, bool required)
{
    got = {}; vh::ec = {}; vh::ec_tokens.clear();
    tokens_t args;
    __v_args("args", vh::max_tokens, &args);
    pick = vh::any<std::size_t>("pick", 0, 1ull << 40);
    auto copy = args;
    const auto o = vh::run(r, std::move(copy));
    const auto m = read(args, name);
    if (!m.ok || (!m.found && required)) { VH_COVER("rejected"); VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "the arguments before the forwarding name are wrong"); return; }
    if (!m.found) { VH_ASSERT(o == vh::outcome::routed && got.calls == 1 && got.w == m.w && got.n == 0, "nothing forwarded"); return; }
    const auto all = args.size() - m.at - 1;
    const auto n = all < mx ? all : mx;
    bool w = m.w, ok = true;
    if (all > mx) {   // what exceeds the limit is left to the other nodes
        ok = all == mx + 1 && !w && vh::same(args[m.at + 1 + mx].name, "--world");
        w = true;
    }
    if (n < mn) { VH_ASSERT(o == vh::outcome::failed && got.calls == 0 && vh::ec == ar::error_code::minimum_count_not_reached, "too few to forward"); return; }
    if (!ok) { VH_ASSERT(o == vh::outcome::failed && got.calls == 0, "the arguments after the limit are wrong"); return; }
    VH_COVER("forwarded");
    VH_ASSERT(o == vh::outcome::routed && got.calls == 1, "accepted whatever the forwarded arguments are");
    VH_ASSERT(got.w == w, "forwarded arguments are not interpreted by other nodes");
    VH_ASSERT(got.n == n, "every argument after the name is delivered");
    if (pick < n) VH_ASSERT(got.any.data() == args[m.at + 1 + pick].name.data() && got.any.size() == args[m.at + 1 + pick].name.size(), "unchanged and in order");
}
// @entry unlimited
VH_ENTRY(unlimited)
{
    judge(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("world"_S), ar::forwarding_arg("--"_S), arp::router{[](bool w, ar::vector<std::string_view> v) { routed(w, v); }})), "--", 0, ~std::size_t{0}, false);
}
// @entry required_node
VH_ENTRY(required_node)
{
    judge(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("world"_S), ar::forwarding_arg("fwd"_S, arp::required), arp::router{[](bool w, ar::vector<std::string_view> v) { routed(w, v); }})), "fwd", 0, ~std::size_t{0}, true);
}
// @entry counted
VH_ENTRY(counted)
{
    judge(ar::root(vh::rec, arp::validation::default_validator,
        ar::mode(ar::flag("world"_S), ar::forwarding_arg("--"_S, arp::required, arp::min_max_count<2, 3>), arp::router{[](bool w, ar::vector<std::string_view> v) { routed(w, v); }})), "--", 2, 3, true);
}
// @entry offered
VH_ENTRY(offered)
{
    vh::offered o;
    vh::offer(o, ar::forwarding_arg("--"_S));
    if (o.n() == 0 || o.before[0].prefix != prefix_type::none || !vh::same(o.before[0].name, "--")) {
        VH_ASSERT(!o.matched && !o.threw, "not its business");
        o.untouched("untouched");
        return;
    }
    VH_COVER("matched");
    VH_ASSERT(o.matched && !o.threw, "matched");
    o.took(1, o.n() - 1, "every argument after the name, prefixes intact");
    o.left(o.n(), "nothing is left");
}

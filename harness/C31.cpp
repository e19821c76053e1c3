// C31: stored parse targets and results keep their value or error intact.
#include "tree.hpp"
using any_t = ar::utility::unsafe_any;
VH_DICT("--hello", "a", "", "text", "--", "-x");

// ---- values of every storage class. tracked<N> notes its own address, so a value that was moved without being told is noticed.
static int born, gone;
template <std::size_t N>
struct tracked {
    std::uint64_t v;
    tracked* self;
    unsigned char pad[N];
    explicit tracked(std::uint64_t x) : v{x}, self{this} { ++born; }
    tracked(const tracked& o) : v{o.v}, self{this} { VH_ASSERT(o.self == &o, "copied from a living value"); ++born; }
    tracked(tracked&& o) noexcept : v{o.v}, self{this} { VH_ASSERT(o.self == &o, "moved from a living value"); ++born; }
    tracked& operator=(const tracked& o) { VH_ASSERT(self == this && o.self == &o, "assigned between living values"); v = o.v; return *this; }
    ~tracked() { VH_ASSERT(self == this, "destroyed a living value, where it lives"); self = nullptr; ++gone; }
};
struct tiny {   // not trivially copyable, but small enough for the internal storage
    tiny* self;
    std::uint64_t v;
    explicit tiny(std::uint64_t x) : self{this}, v{x} { ++born; }
    tiny(const tiny& o) : self{this}, v{o.v} { VH_ASSERT(o.self == &o, "copied from a living value"); ++born; }
    tiny(tiny&& o) noexcept : self{this}, v{o.v} { VH_ASSERT(o.self == &o, "moved from a living value"); ++born; }
    tiny& operator=(const tiny& o) { VH_ASSERT(self == this && o.self == &o, "assigned between living values"); v = o.v; return *this; }
    ~tiny() { VH_ASSERT(self == this, "destroyed a living value, where it lives"); self = nullptr; ++gone; }
};
struct plain { std::uint64_t a, b, c; };   // trivially copyable, too large for the internal storage
using big = tracked<16>;

enum kind : std::uint8_t { empty_k, u8_k, u64_k, text_k, plain_k, tiny_k, big_k, kinds };
struct value {
    std::uint8_t k;
    std::uint64_t v;
    value(const char* n, const char* kn, std::uint8_t lo, std::uint8_t hi) : k{vh::any<std::uint8_t>(kn, lo, hi)}, v{vh::any<std::uint64_t>(n)} {}
    any_t* create() const
    {
        switch (k) {
        case u8_k: return new any_t{static_cast<std::uint8_t>(v)};
        case u64_k: return new any_t{v};
        case text_k: return new any_t{std::string_view{reinterpret_cast<const char*>(1), static_cast<std::size_t>(v)}};
        case plain_k: return new any_t{plain{v, v + 1, v + 2}};
        case tiny_k: return new any_t{tiny{v}};
        case big_k: { const big b{v}; return new any_t{b}; }
        default: return new any_t{};
        }
    }
    // a holds exactly this
    void in(any_t& a, const char* label) const
    {
        VH_ASSERT(a.has_value() == (k != empty_k), label);
        const any_t& c = a;
        switch (k) {
        case u8_k: VH_ASSERT(a.get<std::uint8_t>() == static_cast<std::uint8_t>(v) && c.get<std::uint8_t>() == static_cast<std::uint8_t>(v), label); break;
        case u64_k: VH_ASSERT(a.get<std::uint64_t>() == v && c.get<std::uint64_t>() == v, label); break;
        case text_k: VH_ASSERT(a.get<std::string_view>().size() == v && a.get<std::string_view>().data() == reinterpret_cast<const char*>(1), label); break;
        case plain_k: VH_ASSERT(a.get<plain>().a == v && a.get<plain>().b == v + 1 && c.get<plain>().c == v + 2, label); break;
        case tiny_k: VH_ASSERT(a.get<tiny>().v == v && a.get<tiny>().self == &a.get<tiny>() && c.get<tiny>().v == v, label); break;
        case big_k: VH_ASSERT(a.get<big>().v == v && a.get<big>().self == &a.get<big>() && c.get<big>().v == v, label); break;
        default: break;
        }
    }
};
static void start() { born = gone = 0; }
static void over(const char* label) { VH_ASSERT(born == gone, label); }

// @entry store
VH_ENTRY(store)
{
    start();
    const value x{"x", "xk", empty_k, kinds - 1};
    auto a = x.create();
    x.in(*a, "returns the object put into it");
    if (x.k == empty_k) { VH_COVER("empty"); }
    if (x.k == big_k) { VH_COVER("in allocated memory"); }
    if (x.k == u8_k) { VH_COVER("in place"); }
    if (x.k == u64_k) { a->get<std::uint64_t>() = 7; VH_ASSERT(a->get<std::uint64_t>() == 7, "writable in place"); }
    delete a;
    over("destroyed exactly once");
}
// copies are independent of what they were copied from
// @entry copy
VH_ENTRY(copy)
{
    start();
    const value x{"x", "xk", empty_k, kinds - 1};
    auto a = x.create();
    auto b = new any_t{*static_cast<const any_t*>(a)};
    x.in(*a, "the original keeps its value");
    x.in(*b, "the copy has the value");
    const bool first = vh::any<std::uint8_t>("order", 0, 1) != 0;
    delete (first ? a : b);
    x.in(first ? *b : *a, "it outlives the other");
    delete (first ? b : a);
    VH_COVER("copied");
    over("destroyed exactly once");
}
// @entry move
VH_ENTRY(move)
{
    start();
    const value x{"x", "xk", empty_k, kinds - 1}, y{"y", "yk", u64_k, kinds - 1};
    auto a = x.create();
    auto b = new any_t{std::move(*a)};
    x.in(*b, "the value moves");
    auto c = y.create();
    *a = *c;
    y.in(*a, "a moved-from object takes a new value");
    delete a;
    delete c;
    x.in(*b, "it outlives where it came from");
    delete b;
    VH_COVER("moved");
    over("destroyed exactly once");
}
// @entry exchange
VH_ENTRY(exchange)
{
    start();
    const value x{"x", "xk", empty_k, kinds - 1}, y{"y", "yk", empty_k, kinds - 1};
    auto a = x.create();
    auto b = y.create();
    swap(*a, *b);
    y.in(*a, "swapped");
    x.in(*b, "swapped");
    const bool first = vh::any<std::uint8_t>("order", 0, 1) != 0;
    delete (first ? a : b);
    (first ? x : y).in(first ? *b : *a, "it outlives the other");
    delete (first ? b : a);
    VH_COVER("swapped");
    over("destroyed exactly once");
}
// @entry copy_assign
VH_ENTRY(copy_assign)
{
    start();
    const value x{"x", "xk", empty_k, kinds - 1}, y{"y", "yk", empty_k, kinds - 1};
    auto a = x.create();
    auto b = y.create();
    *a = *static_cast<const any_t*>(b);
    y.in(*a, "assigned");
    y.in(*b, "assigned from");
    if (vh::any<std::uint8_t>("self", 0, 1)) {
        *b = *static_cast<const any_t*>(b);
        y.in(*b, "assigned to itself");
    }
    delete b;
    y.in(*a, "it outlives the other");
    delete a;
    VH_COVER("assigned");
    over("destroyed exactly once");
}
// @entry move_assign
VH_ENTRY(move_assign)
{
    start();
    const value x{"x", "xk", empty_k, kinds - 1}, y{"y", "yk", empty_k, kinds - 1};
    auto a = x.create();
    auto b = y.create();
    *a = std::move(*b);
    y.in(*a, "assigned");
    delete b;
    y.in(*a, "it outlives the other");
    delete a;
    VH_COVER("assigned");
    over("destroyed exactly once");
}

// ---- results
template <typename T, typename E>
using res = ar::utility::result<T, E>;
struct err { std::uint64_t code; };
// @entry result_value
VH_ENTRY(result_value)
{
    start();
    const auto v = vh::any<std::uint64_t>("v"), w = vh::any<std::uint64_t>("w"), e = vh::any<std::uint64_t>("e");
    const bool good = vh::any<std::uint8_t>("good", 0, 1) != 0, good2 = vh::any<std::uint8_t>("good2", 0, 1) != 0;
    using R = res<std::uint64_t, err>;
    R r = good ? R{v} : R{err{e}};
    const R s = good2 ? R{w} : R{err{e}};
    const R c = r;
    VH_ASSERT(r.has_result() == good && r.has_error() == !good && static_cast<bool>(r) == good && !r == !good, "holds what it was given");
    VH_ASSERT((r == s) == (good && good2 && v == w) && (r != s) == !(good && good2 && v == w), "equal to an equal result");
    VH_ASSERT((r == w) == (good && v == w) && (w == r) == (good && v == w) && (r != w) == !(good && v == w) && (w != r) == !(good && v == w), "equal to an equal value");
    VH_ASSERT((r.get_if() != nullptr) == good && (c.get_if() != nullptr) == good, "pointer to the value");
    if (good) {
        VH_ASSERT(*r.get_if() == v && *c.get_if() == v && c.get() == v, "the value");
    }
    bool thrown = false, thrown2 = false, thrown3 = false;
    try { c.throw_exception(); } catch (const err& x) { thrown = true; VH_ASSERT(x.code == e, "that error"); }
    try { VH_ASSERT(c.get() == v, "the value"); } catch (const err& x) { thrown2 = true; VH_ASSERT(x.code == e, "that error"); }
    try { VH_ASSERT(r.extract() == v, "the value"); } catch (const err& x) { thrown3 = true; VH_ASSERT(x.code == e, "that error"); }
    VH_ASSERT(thrown == !good && thrown2 == !good && thrown3 == !good, "raises its error exactly when it holds one");
    if (good) { VH_COVER("value"); }
    if (!good) { VH_COVER("error"); }
}
// values and errors that own something
// @entry result_owned
VH_ENTRY(result_owned)
{
    start();
    const auto v = vh::any<std::uint64_t>("v");
    const bool good = vh::any<std::uint8_t>("good", 0, 1) != 0;
    {
        using R = res<big, tiny>;
        auto r = good ? new R{big{v}} : new R{tiny{v}};
        auto c = new R{*static_cast<const R*>(r)};
        auto m = new R{std::move(*r)};
        delete r;
        VH_ASSERT(c->has_result() == good && m->has_result() == good, "holds what it was given");
        if (good) {
            VH_COVER("value");
            VH_ASSERT(c->get().v == v && &c->get() == c->get_if() && m->get_if()->v == v, "the value");
            const big x = m->extract();
            VH_ASSERT(x.v == v && x.self == &x, "extracted");
        } else {
            VH_COVER("error");
            int thrown = 0;
            try { m->throw_exception(); } catch (const tiny& x) { ++thrown; VH_ASSERT(x.v == v && x.self == &x, "that error"); }
            try { static_cast<void>(c->get()); } catch (const tiny& x) { ++thrown; VH_ASSERT(x.v == v && x.self == &x, "that error"); }
            try { static_cast<void>(m->extract()); } catch (const tiny& x) { ++thrown; VH_ASSERT(x.v == v && x.self == &x, "that error"); }
            VH_ASSERT(thrown == 3 && c->get_if() == nullptr, "raises its error");
        }
        delete c;
        delete m;
    }
    over("destroyed exactly once");
}
// ---- the result of a pre-parse: a value or the library's own exception, whose code and tokens survive
// @entry result_exception
VH_ENTRY(result_exception)
{
    tokens_t tokens;
    __v_tokens("tokens", vh::max_tokens, &tokens);
    const auto code = static_cast<ar::error_code>(vh::any<std::int32_t>("code", 0, 1000));
    using R = ar::parsing::pre_parse_result;
    auto r = new R{ar::multi_lang_exception{code, tokens}};
    auto c = new R{*r};
    *r = R{ar::parsing::pre_parse_action::skip_node};
    VH_ASSERT(*r == ar::parsing::pre_parse_action::skip_node && c->has_error(), "assigned");
    delete r;
    bool thrown = false;
    try {
        c->throw_exception();
    } catch (const ar::multi_lang_exception& e) {
        thrown = true;
        VH_ASSERT(e.ec() == code && e.tokens().size() == tokens.size(), "that error");
        vh::forall("k", tokens.size(), [&](std::size_t k) {
            VH_ASSERT(e.tokens()[k].prefix == tokens[k].prefix && e.tokens()[k].name.data() == tokens[k].name.data() && e.tokens()[k].name.size() == tokens[k].name.size(), "its tokens in order");
        });
    }
    VH_ASSERT(thrown, "raises its error");
    delete c;
    VH_COVER("raised");
}

// ---- parse targets
struct seen_t { int calls; const void* node; const void* parent; tokens_t* keep; std::size_t subs; };
static seen_t seen;
template <typename... P>
class leaf_t : public ar::tree_node<P...>
{
public:
    constexpr explicit leaf_t(P... p) noexcept : ar::tree_node<P...>{std::move(p)...} {}
    template <typename... Parents>
    std::uint64_t parse(ar::parsing::parse_target t, const Parents&... parents) const
    {
        ++seen.calls;
        seen.node = this;
        ((seen.parent = &parents), ...);
        *seen.keep = t.tokens();
        seen.subs = t.sub_targets().size();
        return 42;
    }
};
template <typename... P>
leaf_t(P...) -> leaf_t<P...>;
template <typename... P>
class quiet_t : public ar::tree_node<P...>
{
public:
    constexpr explicit quiet_t(P... p) noexcept : ar::tree_node<P...>{std::move(p)...} {}
    template <typename... Parents>
    void parse(ar::parsing::parse_target, const Parents&...) const { ++seen.calls; seen.node = this; }
};
template <typename... P>
quiet_t(P...) -> quiet_t<P...>;
static const leaf_t leaf{arp::long_name_t{"hello"_S}};
static const leaf_t above{arp::long_name_t{"world"_S}};
static const quiet_t quiet{arp::long_name_t{"quiet"_S}};
static void same_tokens(const tokens_t& a, const tokens_t& b, const char* label)
{
    VH_ASSERT(a.size() == b.size(), label);
    vh::forall("k", a.size(), [&](std::size_t k) {
        VH_ASSERT(a[k].prefix == b[k].prefix && a[k].name.data() == b[k].name.data() && a[k].name.size() == b[k].name.size(), label);
    });
}
// however the target was copied and moved, calling it parses its own tokens with its own node, once
// @entry target
VH_ENTRY(target)
{
    tokens_t tokens, kept;
    __v_tokens("tokens", vh::max_tokens, &tokens);
    seen = {0, nullptr, nullptr, &kept, 0};
    using T = ar::parsing::parse_target;
    auto a = new T{tokens, leaf, above};
    same_tokens(a->tokens(), tokens, "keeps its tokens");
    VH_ASSERT(static_cast<bool>(*a) && a->sub_targets().empty() && a->node_type() == ar::utility::type_hash<std::decay_t<decltype(leaf)>>(), "describes its node");
    const auto how = vh::any<std::uint8_t>("how", 0, 4);
    T* b = nullptr;
    switch (how) {
    case 0: b = a; break;
    case 1: b = new T{*a}; delete a; break;
    case 2: b = new T{std::move(*a)}; delete a; break;
    case 3: b = new T{quiet}; *b = *a; delete a; break;
    default: b = new T{tokens_t{}, quiet}; *b = std::move(*a); delete a; break;
    }
    VH_ASSERT(static_cast<bool>(*b) && b->node_type() == ar::utility::type_hash<std::decay_t<decltype(leaf)>>(), "still describes its node");
    auto v = (*b)();
    VH_ASSERT(seen.calls == 1 && seen.node == &leaf && seen.parent == &above, "parsed by its node under its parents");
    same_tokens(kept, tokens, "with its tokens");
    VH_ASSERT(v.has_value() && v.get<std::uint64_t>() == 42, "delivers what its node returned");
    VH_ASSERT(!static_cast<bool>(*b), "is used up");
    auto w = (*b)();
    VH_ASSERT(seen.calls == 1 && !w.has_value(), "and is not parsed again");
    delete b;
    if (how == 0) { VH_COVER("in place"); }
    if (how == 3) { VH_COVER("assigned"); }
}
// a target without a value, new tokens, sub-targets
// @entry target_parts
VH_ENTRY(target_parts)
{
    tokens_t tokens, kept;
    __v_tokens("tokens", vh::max_tokens, &tokens);
    seen = {0, nullptr, nullptr, &kept, 0};
    using T = ar::parsing::parse_target;
    T q{quiet};
    VH_ASSERT(q.tokens().empty() && static_cast<bool>(q), "no tokens");
    T a{leaf, above};
    a.tokens(tokens);
    T sub{tokens, leaf};
    a.add_sub_target(std::move(sub));
    a.add_sub_target(T{quiet});
    T b{a};
    T c{std::move(a)};
    VH_ASSERT(b.sub_targets().size() == 2 && c.sub_targets().size() == 2, "keeps its sub-targets");
    VH_ASSERT(b.sub_targets()[0].node_type() == ar::utility::type_hash<std::decay_t<decltype(leaf)>>() && b.sub_targets()[1].node_type() == ar::utility::type_hash<std::decay_t<decltype(quiet)>>(), "in order");
    same_tokens(b.sub_targets()[0].tokens(), tokens, "with their tokens");
    VH_ASSERT(!c.sub_targets()[1]().has_value() && seen.calls == 1 && seen.node == &quiet, "no value from a node without one");
    auto v = b.sub_targets()[0]();
    VH_ASSERT(v.has_value() && seen.calls == 2 && seen.node == &leaf && seen.parent == nullptr, "a sub-target is parsed by its node");
    same_tokens(kept, tokens, "with its tokens");
    auto w = b();
    VH_ASSERT(w.has_value() && seen.calls == 3 && seen.parent == &above && seen.subs == 2, "the target itself too");
    same_tokens(kept, tokens, "new tokens");
    VH_COVER("parts");
}

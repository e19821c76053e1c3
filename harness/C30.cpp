// C30: a dynamic string view always denotes its logical string.
// Every reachable value is a view of outside text or owns its text; each operation is checked from arbitrary such values,
// the other objects involved are destroyed before the result is read.
#include <arg_router/arg_router.hpp>
#include "vh.hpp"
#include "contracts.hpp"
#include <optional>
using dsv = arg_router::utility::dynamic_string_view;
VH_DICT("", "a", "hello", "a rather long text that does not fit into the object", "0123456789abcde", "0123456789abcdef");

static void is(const dsv& d, std::initializer_list<std::string_view> pieces, const char* label)
{
    std::size_t n = 0;
    for (auto p : pieces) n += p.size();
    VH_ASSERT(d.size() == n, label);
    VH_ASSERT(d.empty() == (n == 0), label);
    const auto v = static_cast<std::string_view>(d);
    VH_ASSERT(v.size() == n && v.data() == d.begin() && static_cast<std::size_t>(d.end() - d.begin()) == n, label);
    std::size_t at = 0;
    for (auto p : pieces) {
        vh::forall("k", p.size(), [&](std::size_t k) { VH_ASSERT(v[at + k] == p[k], label); });
        at += p.size();
    }
}
// an arbitrary value denoting t
static dsv make(std::uint8_t owned, std::string_view t)
{
    if (owned) return dsv{std::string{t}};
    return dsv{t};
}
struct value {
    std::string_view t;
    std::uint8_t owned;
    value(const char* n, const char* o) : t{vh::bytes(n)}, owned{vh::any<std::uint8_t>(o, 0, 1)} {}
    dsv* create() const { return owned ? new dsv{std::string{t}} : new dsv{t}; }
};
// the view is in the object's own storage iff it owns its text (and never in anybody else's)
static void own(const dsv& d, bool owned, const char* label)
{
    VH_ASSERT(d.internal_storage_size() == (owned ? d.size() : 0), label);
}
// @entry construct
VH_ENTRY(construct)
{
    value a{"a", "ao"};
    auto* d = a.create();
    VH_COVER("made");
    is(*d, {a.t}, "constructed");
    own(*d, a.owned, "owned when given a string");
    VH_ASSERT(a.owned || d->begin() == a.t.data(), "a view refers to the text it was given");
    delete d;
}
// @entry copy
VH_ENTRY(copy)
{
    value a{"a", "ao"};
    auto* d = a.create();
    auto* e = new dsv{*d};
    is(*d, {a.t}, "the source is unchanged");
    delete d;
    VH_COVER("copied");
    is(*e, {a.t}, "copied");
    own(*e, a.owned, "ownership copied");
    delete e;
}
// @entry move
VH_ENTRY(move)
{
    value a{"a", "ao"};
    auto* d = a.create();
    auto* e = new dsv{std::move(*d)};
    delete d;
    VH_COVER("moved");
    is(*e, {a.t}, "moved");
    delete e;
}
// @entry assign
VH_ENTRY(assign)
{
    value a{"a", "ao"}, b{"b", "bo"};
    auto* d = a.create();
    auto* e = b.create();
    *e = *d;
    is(*d, {a.t}, "the source is unchanged");
    delete d;
    VH_COVER("assigned");
    is(*e, {a.t}, "assigned");
    delete e;
}
// @entry move_assign
VH_ENTRY(move_assign)
{
    value a{"a", "ao"}, b{"b", "bo"};
    auto* d = a.create();
    auto* e = b.create();
    *e = std::move(*d);
    delete d;
    VH_COVER("assigned");
    is(*e, {a.t}, "assigned");
    delete e;
}
// @entry self_assign
VH_ENTRY(self_assign)
{
    value a{"a", "ao"};
    auto* d = a.create();
    auto& r = *d;
    *d = r;
    VH_COVER("assigned");
    is(*d, {a.t}, "unchanged");
    delete d;
}
// @entry swapped
VH_ENTRY(swapped)
{
    value a{"a", "ao"}, b{"b", "bo"};
    auto* d = a.create();
    auto* e = b.create();
    swap(*d, *e);
    is(*d, {b.t}, "swapped");
    delete d;
    VH_COVER("swapped");
    is(*e, {a.t}, "swapped");
    delete e;
}
// @entry internal
VH_ENTRY(internal)
{
    value a{"a", "ao"};
    auto* d = a.create();
    d->convert_to_internal_storage();
    VH_COVER("converted");
    is(*d, {a.t}, "unchanged");
    own(*d, true, "the text is owned");
    VH_ASSERT(d->size() == 0 || d->begin() != a.t.data(), "the outside text is no longer referred to");
    d->convert_to_internal_storage();
    is(*d, {a.t}, "unchanged");
    delete d;
}
// @entry append_view
VH_ENTRY(append_view)
{
    value a{"a", "ao"};
    const auto t = vh::bytes("t");
    auto* d = a.create();
    *d += t;
    VH_COVER("appended");
    is(*d, {a.t, t}, "appended");
    own(*d, true, "the text is owned");
    delete d;
}
// @entry append_string
VH_ENTRY(append_string)
{
    value a{"a", "ao"};
    const auto t = vh::bytes("t");
    auto* d = a.create();
    {
        auto* s = new std::string{t};
        *d += *s;
        delete s;
    }
    VH_COVER("appended");
    is(*d, {a.t, t}, "appended");
    delete d;
}
// @entry append_other
VH_ENTRY(append_other)
{
    value a{"a", "ao"}, b{"b", "bo"};
    auto* d = a.create();
    auto* e = b.create();
    *d += *e;
    is(*e, {b.t}, "the appended one is unchanged");
    delete e;
    VH_COVER("appended");
    is(*d, {a.t, b.t}, "appended");
    delete d;
}
// @entry append_self
VH_ENTRY(append_self)
{
    value a{"a", "ao"};
    auto* d = a.create();
    *d += *d;
    VH_COVER("appended");
    is(*d, {a.t, a.t}, "appended");
    delete d;
}
// @entry plus
VH_ENTRY(plus)
{
    value a{"a", "ao"};
    const auto t = vh::bytes("t");
    auto* d = a.create();
    auto* e = new dsv{*d + t};
    is(*d, {a.t}, "the operand is unchanged");
    delete d;
    VH_COVER("concatenated");
    is(*e, {a.t, t}, "concatenated");
    delete e;
}
// @entry moved_from
VH_ENTRY(moved_from)
{
    value a{"a", "ao"}, b{"b", "bo"};
    auto* d = a.create();
    auto* e = new dsv{std::move(*d)};
    delete e;
    *d = make(b.owned, b.t);
    VH_COVER("reused");
    is(*d, {b.t}, "a moved-from object can be assigned to");
    delete d;
}
// @entry compared
VH_ENTRY(compared)
{
    value a{"a", "ao"}, b{"b", "bo"};
    auto* d = a.create();
    auto* e = b.create();
    const auto eq = *d == *e;
    VH_ASSERT((*d != *e) != eq, "inequality is the opposite of equality");
    VH_COVER("compared");
    VH_ASSERT(!eq || a.t.size() == b.t.size(), "equal ones have the same size");
    delete d; delete e;
    if (!a.owned && !b.owned) VH_ASSERT(eq == vh::same(a.t, b.t), "equal iff the same text");
}

// The implemented rules of UAX #29.
#pragma once
#include "vh.hpp"
// the classes, numbered as in the tables
enum : unsigned { Other, CR, LF, Control, Extend, ZWJ, RI, Prepend, SpacingMark, L, V, T, LV, LVT, Pict };
static bool is(unsigned c, std::initializer_list<unsigned> l)
{
    bool r = false;
    for (auto x : l) r = __v_or(r, c == x);
    return r;
}
// no boundary between a and b, by the implemented rules; odd: a is the last of an odd number of RIs
static bool joined(unsigned a, unsigned b, bool odd)
{
    bool r = __v_and(a == CR, b == LF);                                          // GB3
    r = __v_or(r, __v_and(a == L, is(b, {L, V, LV, LVT})));                      // GB6
    r = __v_or(r, __v_and(is(a, {LV, V}), is(b, {V, T})));                       // GB7
    r = __v_or(r, __v_and(is(a, {LVT, T}), b == T));                             // GB8
    r = __v_or(r, is(b, {Extend, ZWJ, SpacingMark}));                            // GB9, GB9a
    r = __v_or(r, a == Prepend);                                                 // GB9b
    r = __v_or(r, __v_and(a == ZWJ, b == Pict));                                 // GB11
    return __v_or(r, __v_and(odd, __v_and(a == RI, b == RI)));                   // GB12, GB13
}

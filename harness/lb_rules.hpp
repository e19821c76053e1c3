// The implemented rules of UAX #14 (LB6-LB30b without LB8, LB10, LB20 and the refinements that need more than the class).
#pragma once
#include "vh.hpp"
namespace lbr
{
// the classes, numbered as in the tables
enum : unsigned { any, AL, BA, BB, B2, BK, CB, CL, CM, CP, CR, EB, EM, EX, GL, H2, H3, HY, ID, HL, IN_, IS, JL, JT, JV, LF, NL, NS, NU, OP, PO, PR, QU, RI, SP, SY, WJ, ZW, ZWJ, classes };
inline bool is(unsigned c, std::initializer_list<unsigned> l)
{
    bool r = false;
    for (auto x : l) r = __v_or(r, c == x);
    return r;
}
// No break between a and b. before: the class before a; base: the last class up to a that is no space (any if none is in reach);
// odd: a is the last of an odd number of RIs.
inline bool joined(unsigned before, unsigned base, unsigned a, unsigned b, bool odd)
{
    const auto both = [](bool x, bool y) { return __v_and(x, y); };
    const auto no = [](bool x) { return __v_not(x); };
    bool r = is(b, {BK, CR, LF, NL});                                                        // LB6
    const auto rule = [&](bool x) { r = __v_or(r, x); };
    rule(is(b, {SP, ZW}));                                                                   // LB7
    rule(is(a, {ZWJ, CM}));                                                                  // LB8a, and after a mark
    rule(both(is(b, {CM, ZWJ}), no(is(a, {BK, CR, LF, NL, SP, ZW}))));                       // LB9
    rule(__v_or(a == WJ, b == WJ));                                                          // LB11
    rule(a == GL);                                                                           // LB12
    rule(both(b == GL, no(is(a, {SP, BA, HY}))));                                            // LB12a
    rule(is(b, {CL, CP, EX, IS, SY}));                                                       // LB13
    rule(base == OP);                                                                        // LB14
    rule(both(base == QU, b == OP));                                                         // LB15
    rule(both(is(base, {CL, CP}), b == NS));                                                 // LB16
    rule(both(base == B2, b == B2));                                                         // LB17
    const auto word = [](unsigned c) { return is(c, {AL, HL}); };
    const auto hangul = [](unsigned c) { return is(c, {JL, JV, JT, H2, H3}); };
    const auto pict = [](unsigned c) { return is(c, {ID, EB, EM}); };
    bool s = __v_or(a == QU, b == QU);                                                       // LB19
    const auto later = [&](bool x) { s = __v_or(s, x); };
    later(is(b, {BA, HY, NS}));                                                              // LB21
    later(a == BB);
    later(both(before == HL, is(a, {HY, BA})));                                              // LB21a
    later(both(a == SY, b == HL));                                                           // LB21b
    later(b == IN_);                                                                         // LB22
    later(__v_or(both(word(a), b == NU), both(a == NU, word(b))));                           // LB23
    later(__v_or(both(a == PR, pict(b)), both(pict(a), b == PO)));                           // LB23a
    later(__v_or(both(is(a, {PR, PO}), word(b)), both(word(a), is(b, {PR, PO}))));           // LB24
    later(both(is(a, {CL, CP, NU}), is(b, {PO, PR})));                                       // LB25
    later(both(is(a, {PO, PR}), is(b, {OP, NU})));
    later(both(is(a, {HY, IS, NU, SY}), b == NU));
    later(both(a == JL, is(b, {JL, JV, H2, H3})));                                           // LB26
    later(both(is(a, {JV, H2}), is(b, {JV, JT})));
    later(both(is(a, {JT, H3}), b == JT));
    later(__v_or(both(hangul(a), b == PO), both(a == PR, hangul(b))));                       // LB27
    later(both(word(a), word(b)));                                                           // LB28
    later(both(a == IS, word(b)));                                                           // LB29
    later(__v_or(both(is(a, {AL, HL, NU}), b == OP), both(a == CP, is(b, {AL, HL, NU}))));   // LB30
    later(__v_and(both(a == RI, b == RI), odd));                                             // LB30a
    later(both(a == EB, b == EM));                                                           // LB30b
    return __v_or(r, both(s, a != SP));                                                      // LB18: after spaces
}
}  // namespace lbr

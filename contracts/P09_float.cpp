// Comparison of floating-point values with integers, and conversion of floating-point values to integers.
#include "int_types.hpp"
#include <archon/core/float.hpp>
#include <cmath>
using namespace ct;
// position of a floating-point value relative to an integer: 3 bits: less, equal, greater (none for NaN)
template<class F> struct Pos { bool lt, eq, gt; };
template<class F> Pos<F> where(F f, i128 i) {
    if (f != f) return { false, false, false };
    F big = F(1.5845632502852868e29);   // 2^97
    if (f >= big) return { false, false, true };
    if (f <= -big) return { true, false, false };
    F t = std::trunc(f);
    i128 v = i128(t);
    bool lt = v < i || (v == i && f < t), gt = v > i || (v == i && f > t);
    return { lt, !lt && !gt, gt };
}
template<class F, class I, int part = 3> void cmp_case() {
    F f = vc::any<F>(); I i = vc::any<I>();
    Pos<F> p = where(f, i);
    if (part & 1) {
    vc_check(core::float_equal_int(f, i) == p.eq, "equal");
    vc_check(core::float_less_int(f, i) == p.lt, "less");
    vc_check(core::float_greater_int(f, i) == p.gt, "greater");
    }
    if (part & 2) {
    vc_check(core::float_less_equal_int(f, i) == (p.lt || p.eq), "less or equal");
    vc_check(core::float_greater_equal_int(f, i) == (p.gt || p.eq), "greater or equal");
    }
}
template<class F, class I> void conv_case() {
    F f = vc::any<F>();
    constexpr i128 mn = std::numeric_limits<I>::min(), mx = std::numeric_limits<I>::max();
    Pos<F> lo = where(f, mn), hi = where(f, mx);
    bool in = (lo.eq || lo.gt) && (hi.eq || hi.lt);
    I c = core::clamped_float_to_int<I>(f);
    I r = 42;
    bool ok = core::try_float_to_int(f, r);
    vc_check(ok == in, "conversion succeeds exactly when in range");
    if (in) vc_check(i128(r) == i128(std::trunc(f)) && c == r, "truncates");
    else vc_check(r == I(42) && i128(c) == (lo.lt ? mn : hi.gt ? mx : 0), "clamped, destination untouched");
}
template<class F, class I> void limits_case() {
    constexpr i128 mn = std::numeric_limits<I>::min(), mx = std::numeric_limits<I>::max();
    F a = core::min_float_for_int<F, I>(), b = core::max_float_for_int<F, I>();
    vc_check(!where(a, mn).lt && where(std::nextafter(a, F(-INFINITY)), mn).lt, "lowest value in range");
    vc_check(!where(b, mx).gt && where(std::nextafter(b, F(INFINITY)), mx).gt, "highest value in range");
}
//: proof cmp_d_si tier=thorough
//: proof cmp_d_ui tier=thorough
//: proof conv_d_si tier=thorough
//: proof conv_d_ui tier=thorough
//: proof cmp_d_sl tier=thorough
VC_PROOF(cmp1_d_sl) { cmp_case<double, long, 1>(); }
VC_PROOF(cmp2_d_sl) { cmp_case<double, long, 2>(); }
#define ALL(NAME, BODY) \
    VC_PROOF(NAME##_f_sc) { BODY<float, signed char>(); } VC_PROOF(NAME##_f_uc) { BODY<float, unsigned char>(); } \
    VC_PROOF(NAME##_f_ss) { BODY<float, short>(); } VC_PROOF(NAME##_f_us) { BODY<float, unsigned short>(); } \
    VC_PROOF(NAME##_f_si) { BODY<float, int>(); } VC_PROOF(NAME##_f_ui) { BODY<float, unsigned>(); } \
    VC_PROOF(NAME##_f_sl) { BODY<float, long>(); } VC_PROOF(NAME##_f_ul) { BODY<float, unsigned long>(); } \
    VC_PROOF(NAME##_d_sc) { BODY<double, signed char>(); } VC_PROOF(NAME##_d_uc) { BODY<double, unsigned char>(); } \
    VC_PROOF(NAME##_d_si) { BODY<double, int>(); } VC_PROOF(NAME##_d_ui) { BODY<double, unsigned>(); } \
    VC_PROOF(NAME##_d_sl) { BODY<double, long>(); } VC_PROOF(NAME##_d_ul) { BODY<double, unsigned long>(); }
//: proof cmp
ALL(cmp, cmp_case)
//: proof conv
ALL(conv, conv_case)
VC_PROOF(limits) /*: native=1 bound=all_listed_types */ {
    limits_case<float, signed char>(); limits_case<float, unsigned char>(); limits_case<float, short>(); limits_case<float, unsigned short>();
    limits_case<float, int>(); limits_case<float, unsigned>(); limits_case<float, long>(); limits_case<float, unsigned long>();
    limits_case<double, signed char>(); limits_case<double, int>(); limits_case<double, unsigned>(); limits_case<double, long>(); limits_case<double, unsigned long>();
}

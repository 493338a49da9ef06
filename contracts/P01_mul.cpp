// Mixed-type checked multiplication.
#include "int_types.hpp"
using namespace ct;
template<class L, class R> void mul() {
    L l = vc::any<L>(), l0 = l; R r = vc::any<R>();
    L exact;
    bool ovf = __builtin_mul_overflow(l0, r, &exact);
    bool ok = core::try_int_mul(l, r);
    vc_check(ok == !ovf, "multiplication succeeds exactly when the product is representable");
    vc_check(ok ? l == exact : l == l0, "product exact, operand untouched on failure");
}
//: proof mul
PAIRS(mul, mul)

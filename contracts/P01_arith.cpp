// Mixed-type checked integer arithmetic, comparison and casting agree with the integers.
#include "int_types.hpp"
using namespace ct;

template<class L, class R> void add() {
    L l = vc::any<L>(), l0 = l; R r = vc::any<R>();
    i128 exact = i128(l) + i128(r);
    bool ok = core::try_int_add(l, r);
    vc_check(ok == fits<L>(exact), "addition succeeds exactly when the sum is representable");
    vc_check(ok ? i128(l) == exact : l == l0, "addition result exact, operand untouched on failure");
    vc_check(core::can_int_add(l0, r) == ok, "can_int_add agrees with try_int_add");
}
template<class L, class R> void sub() {
    L l = vc::any<L>(), l0 = l; R r = vc::any<R>();
    i128 exact = i128(l) - i128(r);
    bool ok = core::try_int_sub(l, r);
    vc_check(ok == fits<L>(exact), "subtraction succeeds exactly when the difference is representable");
    vc_check(ok ? i128(l) == exact : l == l0, "subtraction result exact, operand untouched on failure");
    vc_check(core::can_int_sub(l0, r) == ok, "can_int_sub agrees with try_int_sub");
}
template<class L, class R> void cmp() {
    L a = vc::any<L>(); R b = vc::any<R>();
    i128 x = a, y = b;
    vc_check(core::int_equal(a, b) == (x == y), "int_equal");
    vc_check(core::int_not_equal(a, b) == (x != y), "int_not_equal");
    vc_check(core::int_less(a, b) == (x < y), "int_less");
    vc_check(core::int_less_equal(a, b) == (x <= y), "int_less_equal");
    vc_check(core::int_greater(a, b) == (x > y), "int_greater");
    vc_check(core::int_greater_equal(a, b) == (x >= y), "int_greater_equal");
}
template<class T, class F> void cast() {
    F v = vc::any<F>();
    bool fit = fits<T>(v);
    vc_check(core::can_int_cast<T>(v) == fit, "can_int_cast exactly when representable");
    T to0 = vc::any<T>(), to = to0;
    bool ok = core::try_int_cast(v, to);
    vc_check(ok == fit, "try_int_cast succeeds exactly when representable");
    vc_check(ok ? i128(to) == i128(v) : to == to0, "try_int_cast preserves the value, target untouched on failure");
    if (fit) vc_check(i128(core::int_cast_a<T>(v)) == i128(v), "int_cast_a preserves representable values");
    T min = vc::any<T>(), max = vc::any<T>();
    vc_assume(min <= max);
    i128 c = core::int_cast_clamp<T>(v, min, max);
    vc_check(c == (i128(v) < i128(min) ? i128(min) : i128(v) > i128(max) ? i128(max) : i128(v)), "int_cast_clamp clamps to the range");
}
template<class T, class F> void cast_throw() {
    F v = vc::any<F>();
    bool thrown = false; T r{};
    try { r = core::int_cast<T>(v); } catch (const std::overflow_error&) { thrown = true; }
    vc_check(thrown == !fits<T>(v), "int_cast throws overflow_error exactly when not representable");
    if (!thrown) vc_check(i128(r) == i128(v), "int_cast preserves the value");
    L_add: {
        T l = vc::any<T>(), l0 = l; bool t = false;
        try { core::int_add(l, v); } catch (const std::overflow_error&) { t = true; }
        vc_check(t == !fits<T>(i128(l0) + i128(v)) && i128(l) == (t ? i128(l0) : i128(l0) + i128(v)), "int_add throws exactly on overflow");
        l = l0; t = false;
        try { core::int_sub(l, v); } catch (const std::overflow_error&) { t = true; }
        vc_check(t == !fits<T>(i128(l0) - i128(v)) && i128(l) == (t ? i128(l0) : i128(l0) - i128(v)), "int_sub throws exactly on overflow");
    }
}
//: proof add
PAIRS(add, add)
//: proof sub
PAIRS(sub, sub)
//: proof cmp
PAIRS(cmp, cmp)
//: proof cast
PAIRS(cast, cast)
//: proof cthrow
PAIRS(cthrow, cast_throw)

template<class T> void shl() {
    using P = decltype(+T());
    T v = vc::any<T>(), v0 = v; int i = vc::any<int>();
    vc_assume(v >= 0 && i >= 0);
    bool ok = core::try_int_arith_shift_left(v, i);
    bool rep = v0 == 0 || (i < 64 && (i128(v0) << i) <= i128(std::numeric_limits<T>::max()) && (i128(v0) << i) >= 0);
    vc_check(ok == rep, "arithmetic left shift succeeds exactly when representable");
    vc_check(ok ? (v0 == 0 ? v == 0 : i128(v) == (i128(v0) << i)) : v == v0, "arithmetic left shift exact, operand untouched on failure");
    T w = v0;
    core::int_logic_shift_right(w, i);
    vc_check(i128(w) == (i < 64 ? i128(v0) >> i : 0), "logical right shift is floor division by a power of two");
    if constexpr (std::is_unsigned_v<T>) {
        T u = v0;
        core::int_logic_shift_left(u, i);
        vc_check(u == (i < 64 ? T(i128(v0) << i) : T(0)), "logical left shift is reduced modulo 2^width");
    }
}
VC_PROOF(shift) { with_type(any_type(), [](auto t) { shl<typename decltype(t)::type>(); }); }

// Integer division variants, periodic modulus, square root, bit and digit positions, masks.
#include "int_types.hpp"
using namespace ct;
template<class T, class U> void rounding() {
    T a = vc::any<T>(); U b = vc::any<U>();
    vc_assume(a >= 0 && b > 0);
    i128 q = core::int_div_round_up(a, b);
    vc_check((q - 1) * i128(b) < i128(a) && i128(a) <= q * i128(b), "rounds up");
    i128 h = core::int_div_round_half_down(a, b);
    i128 e = 2 * (i128(a) - h * i128(b));
    vc_check(e <= i128(b) && e > -i128(b), "rounds to nearest, ties down");
}
template<class T, class U> void pmod() {
    T a = vc::any<T>(); U b = vc::any<U>();
    vc_assume(b != 0);
    i128 r = core::int_periodic_mod(a, b);
    i128 x = a, y = b;
    vc_check(y > 0 ? (r >= 0 && r < y) : (r <= 0 && r > y), "periodic modulus lies in the period");
    // r = x + k * y for an integer k (k ranges over the candidate witnesses)
    i128 k = -(x / y);
    i128 k3 = x < 0 && y > 0 ? (-x - 1) / y + 1 : k;
    vc_check(r == x + k * y || r == x + (k + 1) * y || r == x + k3 * y, "periodic modulus is congruent");
}
template<class T, class U> void dm() {
    T a = vc::any<T>(), b = T(vc::any<U>());
    vc_assume(b != 0);
    i128 x = a, y = b;
    vc_assume(fits<T>(x / y));
    auto r = core::int_divmod(a, b);
    vc_check(i128(r.quot) == x / y && i128(r.rem) == x % y, "quotient and remainder");
}
template<class T> void bits() {
    T v = vc::any<T>();
    int n = vc::any<int>();
    i128 x = v;
    int w = std::numeric_limits<T>::digits;
    i128 m = core::int_mask<T>(n);
    vc_check(m == (n <= 0 ? 0 : n >= w ? i128(std::numeric_limits<T>::max()) : (i128(1) << (n < 0 || n > 64 ? 0 : n)) - 1), "mask has exactly the requested bits");
    vc_check(core::int_is_even(v) == (x % 2 == 0) && core::int_is_odd(v) == (x % 2 != 0), "parity");
    bool p2 = false;
    for (int k = 0; k < 64; ++k) p2 |= (x == (i128(1) << k));
    vc_check(core::int_is_power_of_two(v) == p2, "power of two");
    if (v >= 0) {
        int p = core::int_find_msb_pos(v);
        vc_check(p >= -1 && p < w && (p < 0 ? v == 0 : (x >> p) == 1), "position of most significant bit");
    }
}
//: proof rounding
PAIRS(rounding, rounding)
//: proof pmod
PAIRS(pmod, pmod)
//: proof divmod
PAIRS(divmod, dm)
VC_PROOF(bits) { with_type(any_type(), [](auto t) { bits<typename decltype(t)::type>(); }); }

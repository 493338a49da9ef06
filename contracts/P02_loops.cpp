// Integer square root and digit counting.
#include "int_types.hpp"
#include <algorithm>
using namespace ct;
template<class T> void isqrt() {
    T v = vc::any<T>();
    vc_assume(v >= 0);
    vc_hint64(std::uint64_t(v));
    i128 r = core::int_sqrt(v);
    vc_check(r >= 0 && r * r <= i128(v) && i128(v) < (r + 1) * (r + 1), "integer square root is the floor of the square root");
}
template<class T> void sqrt_at(T v) {
    i128 r = core::int_sqrt(v);
    vc_check(r >= 0 && r * r <= i128(v) && i128(v) < (r + 1) * (r + 1), "integer square root is the floor of the square root");
}
// every argument of at most 20 bits, and the neighbourhood of every square below 2^64 whose root has a run of equal low or high bits
template<class T> void sqrt_enum() {
    std::uint64_t mx = std::uint64_t(std::numeric_limits<T>::max());
    for (std::uint64_t v = 0; v <= std::min(mx, std::uint64_t(1) << 20); ++v) sqrt_at<T>(T(v));
    for (int i = 0; i <= 32; ++i) for (int j = 0; j <= i; ++j) for (int d = -300; d <= 300; ++d) {
        for (std::uint64_t root : { (std::uint64_t(1) << i) + (std::uint64_t(1) << j) + std::uint64_t(std::int64_t(d)), (std::uint64_t(1) << i) - (std::uint64_t(1) << j) + std::uint64_t(std::int64_t(d)) }) {
            if (root > (std::uint64_t(1) << 32)) continue;
            for (int k = -2; k <= 2; ++k) { u128 v = u128(root) * root + u128(i128(k)); if (v <= mx) sqrt_at<T>(T(v)); }
        }
    }
    for (int k = 0; k < 3000; ++k) if (mx >= std::uint64_t(k)) sqrt_at<T>(T(mx - k));
}
VC_PROOF(sqrt_enum) /*: native=1 bound=20-bit_arguments_and_neighbourhoods_of_structured_squares_in_every_type */ {
    sqrt_enum<unsigned char>(); sqrt_enum<signed char>(); sqrt_enum<short>(); sqrt_enum<unsigned short>();
    sqrt_enum<int>(); sqrt_enum<unsigned>(); sqrt_enum<long>(); sqrt_enum<unsigned long>();
}
template<class T, int base> void digits() {
    T v = vc::any<T>();
    int p = core::int_find_msd_pos(v, base);
    u128 a = v < 0 ? u128(-i128(v)) : u128(v);
    int n = -1; u128 q = 1;
    for (int k = 0; k < 64; ++k) {
        if (a >= q) n = k;
        if (q > u128(~std::uint64_t(0))) break;
        q *= base;
    }
    vc_check(p == n, "position of most significant digit");
    vc_check(core::int_num_digits(v, base) == n + 1, "number of digits");
}
VC_PROOF(digits_b10) {
    switch (vc::any<std::uint8_t>()) {
        case 0: return digits<unsigned char, 10>();
        case 1: return digits<short, 10>();
        case 2: return digits<int, 10>();
        case 3: return digits<unsigned long, 10>();
        case 4: return digits<long, 10>();
    }
}
VC_PROOF(digits_b2_16) {
    switch (vc::any<std::uint8_t>()) {
        case 0: return digits<signed char, 2>();
        case 1: return digits<unsigned, 2>();
        case 2: return digits<long, 16>();
        case 3: return digits<unsigned long, 16>();
        case 4: return digits<unsigned short, 8>();
    }
}
VC_PROOF(max_digits) {
    vc_check(core::int_max_digits<int>(10) == 10 && core::int_max_digits<unsigned>(10) == 10 && core::int_max_digits<long>(10) == 19 && core::int_max_digits<unsigned long>(10) == 20 && core::int_max_digits<signed char>(10) == 3 && core::int_max_digits<unsigned short>(16) == 4 && core::int_max_digits<unsigned long>(2) == 64, "maximum number of digits");
}
template<class L, class R> void pw() {
    L l = vc::any<L>(), l0 = l; R e = vc::any<R>();
    vc_assume(e >= 0 && e <= 3);
    i128 x = l0, p = 1; bool over = false;
    for (int k = 0; k < 3; ++k) if (k < e) { if (!over) { p *= x; over = p > i128(~std::uint64_t(0)) || p < -i128(~std::uint64_t(0)); } }
    bool rep = !over && fits<L>(p);
    bool ok = core::try_int_pow(l, e);
    vc_check(ok == rep, "power succeeds exactly when representable");
    vc_check(ok ? i128(l) == p : l == l0, "power exact, operand untouched on failure");
}
VC_PROOF(pow_small) /*: bounded=3 */ {
    switch (vc::any<std::uint8_t>()) {
        case 0: return pw<signed char, int>();
        case 1: return pw<unsigned char, unsigned char>();
        case 2: return pw<short, long>();
        case 3: return pw<unsigned short, int>();
        case 4: return pw<int, int>();
        case 5: return pw<unsigned, short>();
    }
}
template<class L> void pwneg() {
    L l = vc::any<L>(), l0 = l; int e = vc::any<int>();
    vc_assume(e < 0);
    bool ok = core::try_int_pow(l, e);
    vc_check(ok == (l0 != 0), "negative exponent fails only for base zero");
    if (ok) vc_check(i128(l) == (l0 == 1 ? 1 : i128(l0) == -1 ? (e % 2 == 0 ? 1 : -1) : 0), "negative exponent truncates the reciprocal");
}
VC_PROOF(pow_negative) { with_type(any_type(), [](auto t) { pwneg<typename decltype(t)::type>(); }); }

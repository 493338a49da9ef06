// Two's complement casts preserve the represented value exactly when it is representable.
#include "int_types.hpp"
using namespace ct;
template<class T> constexpr int width = std::numeric_limits<T>::digits + (std::is_signed_v<T> ? 1 : 0);
// value represented by the bits of v, read as two's complement
template<class T> static i128 twos(T v) { return i128(typename std::make_signed<T>::type(v)); }
template<class T> static bool in_twos(i128 v) { return v >= -(i128(1) << (width<T> - 1)) && v <= (i128(1) << (width<T> - 1)) - 1; }

template<class T, class F> void to() {
    F v = vc::any<F>(); T t0 = vc::any<T>(), t = t0;
    bool fit = std::is_signed_v<T> ? fits<T>(v) : in_twos<T>(v);
    vc_check(core::can_cast_to_twos_compl<T>(v) == fit, "can_cast_to_twos_compl exactly when representable");
    bool ok = core::try_cast_to_twos_compl(v, t);
    vc_check(ok == fit, "try_cast_to_twos_compl succeeds exactly when representable");
    vc_check(ok ? twos(t) == i128(v) : t == t0, "cast to two's complement preserves the value");
    T a = core::cast_to_twos_compl_a<T>(v);
    vc_check(a == T(v), "assumed cast to two's complement keeps the low bits");
    T r = t0; bool threw = throws<T, std::overflow_error>([&] { r = core::cast_to_twos_compl<T>(v); });
    vc_check(threw == !fit && (threw || r == a), "throwing cast to two's complement");
}
template<class T, class F> void from() {
    F v = vc::any<F>(); T t0 = vc::any<T>(), t = t0;
    i128 val = twos(v);
    bool fit = fits<T>(val);
    vc_check(core::can_cast_from_twos_compl<T>(v) == fit, "can_cast_from_twos_compl exactly when representable");
    bool ok = core::try_cast_from_twos_compl(v, t);
    vc_check(ok == fit, "try_cast_from_twos_compl succeeds exactly when representable");
    vc_check(ok ? i128(t) == val : t == t0, "cast from two's complement preserves the value");
    if (fit) vc_check(i128(core::cast_from_twos_compl_a<T>(v)) == val, "assumed cast from two's complement preserves the value");
    T r = t0; bool threw = throws<T, std::overflow_error>([&] { r = core::cast_from_twos_compl<T>(v); });
    vc_check(threw == !fit && (threw || i128(r) == val), "throwing cast from two's complement");
}
template<class T, class F> void both() {
    F v = vc::any<F>(); T t0 = vc::any<T>(), t = t0;
    i128 val = twos(v);
    bool fit = in_twos<T>(val);
    vc_check(core::can_twos_compl_cast<T>(v) == fit, "can_twos_compl_cast exactly when representable");
    bool ok = core::try_twos_compl_cast(v, t);
    vc_check(ok == fit, "try_twos_compl_cast succeeds exactly when representable");
    vc_check(ok ? twos(t) == val : t == t0, "two's complement cast preserves the value");
    if (fit) vc_check(twos(core::twos_compl_cast_a<T>(v)) == val, "assumed two's complement cast preserves the value");
    T r = t0; bool threw = throws<T, std::overflow_error>([&] { r = core::twos_compl_cast<T>(v); });
    vc_check(threw == !fit && (threw || twos(r) == val), "throwing two's complement cast");
}
PAIRS(to_twos, to)
PAIRS(from_twos, from)
PAIRS(twos_cast, both)

template<class T> static void ext() {
    T v = vc::any<T>(); int n = vc::any<int>(); vc_assume(n >= 1);
    T r = core::twos_compl_sign_extend(v, n);
    if (n >= width<T>) vc_check(r == v, "full width is left unmodified");
    else {
        T low = T((T(1) << n) - 1);
        vc_check((r & low) == (v & low), "low bits kept");
        bool neg = (v >> (n - 1)) & 1;
        if (neg) vc_check(T(r | low) == T(~T(0)), "sign bit copied into the high bits");
        else if (T(v & ~low) == 0) vc_check(r == v, "a non-negative value is kept");
    }
}
VC_PROOF(sign_extend_8) { ext<std::uint8_t>(); }
VC_PROOF(sign_extend_16) { ext<std::uint16_t>(); }
VC_PROOF(sign_extend_32) { ext<std::uint32_t>(); }
VC_PROOF(sign_extend_64) { ext<std::uint64_t>(); }
// Copying bits between differently partitioned integers keeps the represented value.
template<bool S, class T, class U, std::size_t N, std::size_t M> static void copy() {
    std::array<T, N> a; std::array<U, M> b;
    for (T& x : a) x = vc::any<T>();
    for (U& x : b) x = vc::any<U>();
    core::int_bit_copy<S>(a, b);
    constexpr int wa = int(N) * width<T>;
    for (std::size_t i = 0; i < M; ++i) for (int j = 0; j < width<U>; ++j) {
        int k = int(i) * width<U> + j;
        bool exp = k < wa ? (a[k / width<T>] >> (k % width<T>)) & 1 : S && ((a[N - 1] >> (width<T> - 1)) & 1);
        vc_check(bool((b[i] >> j) & 1) == exp, "copied bit");
    }
}
template<class T, class U> static void copies() {
    copy<false, T, U, 1, 1>(); copy<true, T, U, 1, 1>(); copy<false, T, U, 1, 3>(); copy<true, T, U, 1, 3>();
    copy<false, T, U, 3, 1>(); copy<true, T, U, 3, 1>(); copy<false, T, U, 2, 3>(); copy<true, T, U, 2, 3>();
    copy<true, T, U, 3, 5>(); copy<true, T, U, 5, 2>();
}
VC_PROOF(bit_copy_8_8) { copies<std::uint8_t, std::uint8_t>(); }
VC_PROOF(bit_copy_8_16) { copies<std::uint8_t, std::uint16_t>(); }
VC_PROOF(bit_copy_8_32) { copies<std::uint8_t, std::uint32_t>(); }
VC_PROOF(bit_copy_16_8) { copies<std::uint16_t, std::uint8_t>(); }
VC_PROOF(bit_copy_32_8) { copies<std::uint32_t, std::uint8_t>(); }
VC_PROOF(bit_copy_32_32) { copies<std::uint32_t, std::uint32_t>(); }
VC_PROOF(bit_copy_64_32) { copies<std::uint64_t, std::uint32_t>(); }
VC_PROOF(bit_copy_32_64) { copies<std::uint32_t, std::uint64_t>(); }

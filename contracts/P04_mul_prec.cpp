// MulPrecInt<T, N, S> is arithmetic modulo 2^(N * width of T).
#include "int_types.hpp"
#include <archon/core/mul_prec_int.hpp>
using namespace ct;
template<class T> constexpr int W = std::numeric_limits<T>::digits;
template<class T, int N> using Parts = std::array<T, N>;
template<class T, int N> static Parts<T, N> any() { Parts<T, N> p; for (T& x : p) x = vc::any<T>(); return p; }
template<class T, int N> static u128 bits(const Parts<T, N>& p) { u128 v = 0; for (int i = 0; i < N; ++i) v |= u128(p[i]) << (i * W<T>); return v; }
template<class T, int N> constexpr u128 mask = N * W<T> == 128 ? ~u128(0) : (u128(1) << (N * W<T> % 128)) - 1;
template<class T, int N, bool S> static i128 value(const core::MulPrecInt<T, N, S>& v) {
    u128 b = bits<T, N>(v.get_parts());
    if (S && ((b >> (N * W<T> - 1)) & 1)) b |= ~mask<T, N>;
    return i128(b);
}
template<class T, int N, bool S> static void linear() {
    using M = core::MulPrecInt<T, N, S>;
    auto a = any<T, N>(), b = any<T, N>(); u128 x = bits<T, N>(a), y = bits<T, N>(b); constexpr u128 m = mask<T, N>;
    M p(a), q(b);
    vc_check((bits<T, N>((p + q).get_parts())) == ((x + y) & m), "sum modulo 2^width");
    vc_check((bits<T, N>((p - q).get_parts())) == ((x - y) & m), "difference modulo 2^width");
    vc_check((bits<T, N>((-p).get_parts())) == ((u128(0) - x) & m), "negation modulo 2^width");
    M r = p; r += q; vc_check(r == p + q, "compound addition"); r = p; r -= q; vc_check(r == p - q, "compound subtraction");
    vc_check((+p).get_parts() == a, "unary plus");
}
template<class T, int N, bool S> static void bitwise() {
    using M = core::MulPrecInt<T, N, S>;
    auto a = any<T, N>(), b = any<T, N>(); u128 x = bits<T, N>(a), y = bits<T, N>(b); constexpr u128 m = mask<T, N>;
    M p(a), q(b);
    vc_check((bits<T, N>((p & q).get_parts())) == (x & y), "bitwise and");
    vc_check((bits<T, N>((p | q).get_parts())) == (x | y), "bitwise or");
    vc_check((bits<T, N>((p ^ q).get_parts())) == (x ^ y), "bitwise exclusive or");
    vc_check((bits<T, N>((~p).get_parts())) == (~x & m), "complement");
    M r = p; r &= q; vc_check(r == (p & q), "compound and"); r = p; r |= q; vc_check(r == (p | q), "compound or"); r = p; r ^= q; vc_check(r == (p ^ q), "compound exclusive or");
}
template<class T, int N, bool S> static void shift() {
    using M = core::MulPrecInt<T, N, S>;
    auto a = any<T, N>(); u128 x = bits<T, N>(a); constexpr u128 m = mask<T, N>; M p(a);
    int n = vc::any<int>(); vc_assume(n >= 0 && n < M::width);
    M l = p << n, r = p >> n;
    vc_check((bits<T, N>(l.get_parts())) == ((x << n) & m), "left shift");
    vc_check((bits<T, N>(r.get_parts())) == (x >> n), "right shift");
    M c = p; c <<= n; vc_check(c == l, "compound left shift"); c = p; c >>= n; vc_check(c == r, "compound right shift");
}
template<class T, int N, bool S> static void compare() {
    using M = core::MulPrecInt<T, N, S>;
    M p(any<T, N>()), q(any<T, N>()); i128 x = value(p), y = value(q);
    bool less = S || N * W<T> < 128 ? x < y : u128(x) < u128(y);
    vc_check((p == q) == (x == y) && (p != q) == (x != y), "equality");
    vc_check((p < q) == less && (p > q) == (!less && x != y) && (p <= q) == (less || x == y) && (p >= q) == !less, "order");
    vc_check(p.is_nonneg() == (!S || x >= 0), "sign");
    vc_check((bits<T, N>(M::min().get_parts())) == (S ? u128(1) << (M::width - 1) : 0), "minimum");
    vc_check(u128(value(M::max())) == (S ? mask<T, N> >> 1 : mask<T, N>), "maximum");
    u128 b = bits<T, N>(p.get_parts()); int k = p.find_msb_pos();
    vc_check(b == 0 ? k == -1 : k >= 0 && k < M::width && (b >> k) == 1, "most significant bit");
    vc_check(core::int_less(p, q) == less && core::int_equal(p, q) == (x == y), "generic comparison");
}
template<class T, int N, bool S, class I> static void casts() {
    using M = core::MulPrecInt<T, N, S>;
    I v = vc::any<I>(); M p(v);
    vc_check((bits<T, N>(p.get_parts())) == (u128(i128(v)) & mask<T, N>), "construction from an integer");
    M q(any<T, N>()); u128 b = u128(value(q));
    vc_check(I(q) == I(b), "conversion to an integer keeps the low bits");
    if constexpr (S || N * W<T> < 128) {
        i128 x = value(q);
        bool fit = x >= i128(std::numeric_limits<I>::min()) && x <= i128(std::numeric_limits<I>::max());
        vc_check(core::can_int_cast<I>(q) == fit, "checked conversion to an integer");
        i128 hi = i128(mask<T, N> >> (S ? 1 : 0)), lo = S ? -hi - 1 : 0;
        vc_check(core::can_int_cast<M>(v) == (i128(v) >= lo && i128(v) <= hi), "checked conversion from an integer");
    }
}
// The product, expanded by distributivity over half parts: the sum of a_i b_j 2^(k (i + j)).
template<class T, class H, int N, bool S> static void mul() {
    using M = core::MulPrecInt<T, N, S>;
    constexpr int k = W<H>; static_assert(2 * k == W<T>);
    H a[2 * N], b[2 * N]; std::array<T, N> p, q;
    for (H& x : a) x = vc::any<H>();
    for (H& x : b) x = vc::any<H>();
    for (int i = 0; i < N; ++i) { p[i] = T(T(a[2 * i + 1]) << k | a[2 * i]); q[i] = T(T(b[2 * i + 1]) << k | b[2 * i]); }
    u128 sum = 0;
    for (int i = 0; i < 2 * N; ++i) for (int j = 0; i + j < 2 * N; ++j) sum += (u128(a[i]) * b[j]) << (k * (i + j));
    vc_check((bits<T, N>((M(p) * M(q)).get_parts())) == (sum & mask<T, N>), "product modulo 2^width");
}
template<class T, int N, bool S> static void div_at(const core::MulPrecInt<T, N, S>& p, const core::MulPrecInt<T, N, S>& q) {
    using M = core::MulPrecInt<T, N, S>;
    auto r = p.divmod(q);
    if (S) {
        i128 x = value(p), y = value(q);
        if (y == -1) { vc_check((bits<T, N>(r.quot.get_parts())) == ((u128(0) - u128(x)) & mask<T, N>) && value(r.rem) == 0, "division by minus one"); return; }
        vc_check(value(r.quot) == x / y && value(r.rem) == x % y, "quotient and remainder");
    }
    else {
        u128 x = u128(value(p)), y = u128(value(q));
        vc_check(u128(value(r.quot)) == x / y && u128(value(r.rem)) == x % y, "quotient and remainder");
    }
    vc_check(p / q == r.quot && p % q == r.rem, "division operators");
}
// a divisor of at most half a part: schoolbook division by one digit
template<class T, class H, int N, bool S> static void short_division() {
    using M = core::MulPrecInt<T, N, S>;
    constexpr int k = W<H>; static_assert(2 * k == W<T>);
    std::array<T, N> a; u128 x = 0;
    for (int i = 0; i < N; ++i) { H lo = vc::any<H>(), hi = vc::any<H>(); a[i] = T(T(hi) << k | lo); x |= u128(a[i]) << (i * W<T>); }
    M p(a); vc_assume(p.is_nonneg());
    H d = vc::any<H>(); vc_assume(d != 0);
    std::array<T, N> b = {}; b[0] = d; M q(b);
    auto r = p.divmod(q);
    u128 quot = bits<T, N>(r.quot.get_parts()), rem = bits<T, N>(r.rem.get_parts());
    vc_check(quot <= x, "quotient is no greater than the dividend");
    vc_check(rem < d, "remainder is smaller than the divisor");
    vc_check(quot * d + rem == x, "quotient and remainder recombine");
}
template<class T, int N, bool S> static void signs() {
    using M = core::MulPrecInt<T, N, S>;
    M p(any<T, N>()); std::array<T, N> one = {}; one[0] = 1; M q(one);
    vc_check(p / q == p && p % q == M() && p / -q == -p && p % -q == M(), "division by plus and minus one");
}
template<class T, int N, bool S> static core::MulPrecInt<T, N, S> of(u128 v) { std::array<T, N> p; for (int i = 0; i < N; ++i) p[i] = T(v >> (i * W<T>)); return core::MulPrecInt<T, N, S>(p); }
template<class T, bool S> static void div_all() {
    for (unsigned a = 0; a < 1u << W<T>; ++a) for (unsigned b = 1; b < 1u << W<T>; ++b) div_at(of<T, 1, S>(a), of<T, 1, S>(b));
}
// all numbers whose half part digits are the given ones
template<class T, int N, bool S> static void div_digits(std::initializer_list<T> digits) {
    constexpr int n = 2 * N, k = W<T> / 2;
    std::size_t D = digits.size(), total = 1; for (int i = 0; i < n; ++i) total *= D;
    auto num = [&](std::size_t c) { u128 v = 0; for (int i = 0; i < n; ++i, c /= D) v = v << k | digits.begin()[c % D]; return v; };
    for (std::size_t a = 0; a < total; ++a) for (std::size_t b = 0; b < total; ++b) { u128 d = num(b); if (d != 0) div_at(of<T, N, S>(num(a)), of<T, N, S>(d)); }
}
#define ALL(X, NAME) \
VC_PROOF(NAME##_8x2u) { X<std::uint8_t, 2, false>(); } VC_PROOF(NAME##_8x3s) { X<std::uint8_t, 3, true>(); } \
VC_PROOF(NAME##_16x2s) { X<std::uint16_t, 2, true>(); } VC_PROOF(NAME##_32x2u) { X<std::uint32_t, 2, false>(); } \
VC_PROOF(NAME##_32x3s) { X<std::uint32_t, 3, true>(); } VC_PROOF(NAME##_64x1s) { X<std::uint64_t, 1, true>(); } \
VC_PROOF(NAME##_64x2u) { X<std::uint64_t, 2, false>(); } VC_PROOF(NAME##_64x2s) { X<std::uint64_t, 2, true>(); }
ALL(linear, linear)
ALL(bitwise, bitwise)
ALL(shift, shift)
ALL(compare, compare)
template<class T, int N, bool S> static void all_casts() {
    unsigned k = any_type(); with_type(k, [](auto t) { casts<T, N, S, typename decltype(t)::type>(); });
}
ALL(all_casts, casts)
VC_PROOF(mul_16x1u) { mul<std::uint16_t, std::uint8_t, 1, false>(); }
VC_PROOF(mul_16x2s) { mul<std::uint16_t, std::uint8_t, 2, true>(); }
VC_PROOF(mul_16x3u) { mul<std::uint16_t, std::uint8_t, 3, false>(); }
VC_PROOF(mul_32x1u) { mul<std::uint32_t, std::uint16_t, 1, false>(); }
VC_PROOF(mul_32x2u) { mul<std::uint32_t, std::uint16_t, 2, false>(); }
VC_PROOF(mul_64x1s) { mul<std::uint64_t, std::uint32_t, 1, true>(); }
VC_PROOF(mul_64x2u) { mul<std::uint64_t, std::uint32_t, 2, false>(); }
VC_PROOF(short_div_16x1u) { short_division<std::uint16_t, std::uint8_t, 1, false>(); }
VC_PROOF(short_div_16x2s) { short_division<std::uint16_t, std::uint8_t, 2, true>(); }
VC_PROOF(short_div_32x1u) { short_division<std::uint32_t, std::uint16_t, 1, false>(); }
VC_PROOF(short_div_32x2s) { short_division<std::uint32_t, std::uint16_t, 2, true>(); }
VC_PROOF(short_div_64x1u) { short_division<std::uint64_t, std::uint32_t, 1, false>(); }
VC_PROOF(signs_8x2s) { signs<std::uint8_t, 2, true>(); }
VC_PROOF(signs_64x2s) { signs<std::uint64_t, 2, true>(); }
VC_PROOF(div_8x1) /*: native=1 bound=every_pair_of_8-bit_numbers */ { div_all<std::uint8_t, false>(); div_all<std::uint8_t, true>(); }
VC_PROOF(div_16) /*: native=1 bound=16-bit_numbers_with_extreme_half_part_digits */ {
    div_digits<std::uint8_t, 2, false>({0, 1, 7, 8, 15}); div_digits<std::uint8_t, 2, true>({0, 1, 8, 14, 15});
    div_digits<std::uint16_t, 1, false>({0, 1, 2, 0x7F, 0x80, 0x81, 0xFE, 0xFF}); div_digits<std::uint16_t, 1, true>({0, 1, 2, 0x7F, 0x80, 0x81, 0xFE, 0xFF});
}
VC_PROOF(div_wide) /*: native=1 bound=numbers_of_up_to_128_bits_with_extreme_half_part_digits */ {
    div_digits<std::uint32_t, 2, false>({0, 1, 0x7FFF, 0x8000, 0xFFFF}); div_digits<std::uint32_t, 2, true>({0, 1, 0x7FFF, 0x8000, 0xFFFF});
    div_digits<std::uint64_t, 1, false>({0, 1, 2, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF}); div_digits<std::uint64_t, 1, true>({0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF});
    div_digits<std::uint64_t, 2, false>({0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}); div_digits<std::uint64_t, 2, true>({0, 1, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF});
    div_digits<std::uint16_t, 3, true>({0, 0x80, 0xFF});
}

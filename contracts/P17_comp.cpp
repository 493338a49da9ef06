// Integer component representations: packing, bit width conversion, scaled conversion.
#include "int_types.hpp"
#include <archon/util/unit_frac.hpp>
#include <archon/image/bit_medium.hpp>
#include <archon/image/comp_types.hpp>
#include <archon/image/comp_repr.hpp>
#include <archon/image/bit_field.hpp>
using namespace ct;
namespace image = archon::image;
namespace uf = archon::util::unit_frac;
constexpr u128 mask(int n) { return (u128(1) << n) - 1; }
// v (n bits) is rescaled to m bits: floor(v / (2^n - 1) * 2^m), except that the maximum maps to the maximum
inline bool scaled(u128 v, int n, u128 r, int m) {
    u128 p = mask(n), q = mask(m);
    if (v == p) return r == q;
    return r * p <= v * (q + 1) && v * (q + 1) < (r + 1) * p;
}
template<class T, int n> void width_from() {
    constexpr int w = std::numeric_limits<T>::digits;
    T v = vc::any<T>(); int m = vc::any<int>();
    vc_assume(v >= 0 && u128(v) <= mask(n));
    for (int k = 1; k <= w; ++k) if (m == k) {
        T r = uf::change_bit_width(v, n, k);
        vc_check(r >= 0 && u128(r) <= mask(k), "result has the requested bit width");
        vc_check(scaled(u128(v), n, u128(r), k), "rescaled to the nearest lower fraction");
        return;
    }
}
template<class T, int... n> void width_all(std::integer_sequence<int, n...>) {
    int k = vc::any<int>();
    ((k == n ? (width_from<T, n + 1>(), 0) : 0), ...);
}
#define WIDTH(NAME, T) VC_PROOF(width_##NAME) { width_all<T>(std::make_integer_sequence<int, std::numeric_limits<T>::digits>()); }
//: proof width_us tier=thorough
WIDTH(uc, unsigned char) WIDTH(sc, signed char) WIDTH(us, unsigned short) WIDTH(ss, short)
// wider types: the widths used by the image library
template<class T, int n, int m> void width_pair() {
    T v = vc::any<T>();
    vc_assume(v >= 0 && u128(v) <= mask(n));
    T r = uf::change_bit_width(v, n, m);
    vc_check(r >= 0 && u128(r) <= mask(m), "result has the requested bit width");
    vc_check(scaled(u128(v), n, u128(r), m), "rescaled to the nearest lower fraction");
}
template<class T, int n, int... m> void width_to(std::integer_sequence<int, m...>) {
    int k = vc::any<int>();
    ((k == m ? (width_pair<T, n, m + 1>(), 0) : 0), ...);
}
VC_PROOF(width_ui_4) { width_to<unsigned, 4>(std::make_integer_sequence<int, 32>()); }
VC_PROOF(width_ui_8) { width_to<unsigned, 8>(std::make_integer_sequence<int, 32>()); }
VC_PROOF(width_ui_11) { width_to<unsigned, 11>(std::make_integer_sequence<int, 32>()); }
VC_PROOF(width_si_16) { width_to<int, 16>(std::make_integer_sequence<int, 31>()); }
VC_PROOF(width_ul_16) /*: tier=thorough */ { width_to<unsigned long, 16>(std::make_integer_sequence<int, 64>()); }
VC_PROOF(width_ul_32) /*: tier=thorough */ { width_to<unsigned long, 32>(std::make_integer_sequence<int, 64>()); }
VC_PROOF(width_ul_64) { width_to<unsigned long, 64>(std::make_integer_sequence<int, 64>()); }

template<class T, int N, class U> void pack_case() {
    U v = vc::any<U>();
    vc_assume(v >= 0 && u128(v) <= mask(N));
    T p = image::pack_int<T, N>(v);
    constexpr bool direct = std::numeric_limits<T>::digits >= N;
    if (direct || u128(v) <= mask(N - 1)) vc_check(i128(p) == i128(v), "values that fit are packed unchanged");
    else vc_check(i128(p) == i128(v) - (i128(1) << N), "the top bit is packed into the sign bit");
    auto r = image::unpack_int<N>(p);
    vc_check(r >= 0 && i128(r) == i128(v), "unpacking recovers the value");
    vc_check(i128(image::unpack_int_a<N, std::uint64_t>(p)) == i128(v), "unpacking into any type recovers the value");
}
template<class T, int N> void pack_types() {
    switch (vc::any<std::uint8_t>()) {
        case 0: return pack_case<T, N, int>();
        case 1: return pack_case<T, N, unsigned>();
        case 2: return pack_case<T, N, long>();
        case 3: return pack_case<T, N, unsigned long>();
        case 4: return pack_case<T, N, unsigned short>();
        case 5: return pack_case<T, N, unsigned char>();
    }
}
template<class T, int... n> void pack_widths(std::integer_sequence<int, n...>) {
    int k = vc::any<int>();
    ((k == n ? (pack_types<T, n + 1>(), 0) : 0), ...);
}
VC_PROOF(pack_char) { pack_widths<char>(std::make_integer_sequence<int, 8>()); }
VC_PROOF(pack_uchar) { pack_widths<unsigned char>(std::make_integer_sequence<int, 8>()); }
VC_PROOF(pack_short) { pack_widths<short>(std::make_integer_sequence<int, 16>()); }
VC_PROOF(pack_ushort) { pack_widths<unsigned short>(std::make_integer_sequence<int, 16>()); }
VC_PROOF(pack_int) { pack_widths<int>(std::make_integer_sequence<int, 32>()); }
VC_PROOF(pack_uint) { pack_widths<unsigned>(std::make_integer_sequence<int, 32>()); }
VC_PROOF(pack_long) { pack_widths<long>(std::make_integer_sequence<int, 64>()); }

template<class J, int M, class I, int N> void conv_case() {
    using W = image::unpacked_type<J, M>;
    W v = vc::any<W>();
    vc_assume(v >= 0 && u128(v) <= mask(M));
    I r = image::int_to_int<M, I, N>(image::pack_int<J, M>(v));
    auto w = image::unpack_int<N>(r);
    vc_check(w >= 0 && u128(w) <= mask(N) && scaled(u128(v), M, u128(w), N), "packed components are rescaled");
    vc_check(u128(image::unpack_int<M>(image::int_to_int<N, J, M>(r))) == u128(v) || N < M, "widening and narrowing again recovers the component");
}
VC_PROOF(conv_packed) {
    switch (vc::any<std::uint8_t>()) {
        case 0: return conv_case<char, 8, short, 16>();
        case 1: return conv_case<short, 16, char, 8>();
        case 2: return conv_case<char, 8, char, 8>();
        case 3: return conv_case<short, 16, short, 16>();
        case 4: return conv_case<int, 5, char, 8>();
        case 5: return conv_case<unsigned, 6, char, 8>();
        case 6: return conv_case<unsigned char, 1, char, 8>();
        case 7: return conv_case<unsigned, 10, short, 16>();
        case 8: return conv_case<int, 32, short, 16>();
        case 9: return conv_case<char, 7, long, 64>();
        case 10: return conv_case<short, 3, int, 32>();
    }
}
VC_PROOF(comp_repr) {
    int v8 = vc::any<int>(); vc_assume(v8 >= 0 && v8 < 256);
    int v16 = vc::any<int>(); vc_assume(v16 >= 0 && v16 < 65536);
    constexpr auto r8 = image::CompRepr::int8, r16 = image::CompRepr::int16;
    vc_check(image::comp_repr_unpack<r8>(image::comp_repr_pack<r8>(v8)) == v8 && image::comp_repr_unpack<r16>(image::comp_repr_pack<r16>(v16)) == v16, "components are recovered from their packed form");
    int a = vc::any<int>(), b = vc::any<int>(); vc_assume(a >= 0 && b >= 0 && a < 65536 && b < 65536);
    vc_check(image::comp_repr_less<r16>(image::comp_repr_pack<r16>(a), image::comp_repr_pack<r16>(b)) == (a < b), "packed components compare as their values");
    vc_check(image::comp_repr_less<r8>(image::comp_repr_pack<r8>(a & 255), image::comp_repr_pack<r8>(b & 255)) == ((a & 255) < (b & 255)), "packed components compare as their values");
    vc_check(image::comp_repr_unpacked_max<r8>() == 255 && image::comp_repr_unpacked_max<r16>() == 65535, "maximum component values");
    image::comp_type<r8> p8[4]; image::comp_type<r16> p16[4];
    for (int i = 0; i < 4; ++i) p8[i] = image::comp_repr_pack<r8>(int(vc::any<std::uint8_t>()));
    int n = vc::any<int>(); bool alpha = vc::any<bool>();
    for (int k = 1; k <= 4; ++k) if (n == k) {
        for (int i = 0; i < 4; ++i) p16[i] = 77;
        image::comp_repr_convert<r8, r16>(p8, p16, k, alpha);
        for (int i = 0; i < k; ++i) vc_check(image::comp_repr_unpack<r16>(p16[i]) == 257 * int(image::comp_repr_unpack<r8>(p8[i])), "8-bit pixels widen to 16 bits");
        for (int i = k; i < 4; ++i) vc_check(p16[i] == 77, "other components untouched");
        image::comp_type<r8> q8[4] = { 5, 5, 5, 5 };
        image::comp_repr_convert<r16, r8>(p16, q8, k, alpha);
        for (int i = 0; i < 4; ++i) vc_check(q8[i] == (i < k ? p8[i] : 5), "and narrow back");
    }
    vc_check(image::choose_transf_repr(n) == (n <= 8 ? r8 : n <= 16 ? r16 : image::CompRepr::float_), "transfer representation holds the bit depth");
}
template<class I, int N, class J, int M> void exact_case() {
    I v = vc::any<I>(), p = vc::any<I>(); J q = vc::any<J>();
    vc_assume(v >= 0 && p > 0 && q > 0 && v <= p && u128(p) <= mask(N) && u128(q) <= mask(M));
    J r = uf::int_to_int_a<N, M>(v, p, q);
    i128 e = 2 * (i128(v) * i128(q) - i128(r) * i128(p));
    vc_check(r >= 0 && r <= q && e <= i128(p) && e > -i128(p), "scaled exactly, rounded to nearest");
}
VC_PROOF(exact_8_8) { exact_case<unsigned char, 8, unsigned char, 8>(); }
VC_PROOF(exact_s16_u16) { exact_case<short, 15, unsigned short, 16>(); }
VC_PROOF(exact_16_31) { exact_case<unsigned short, 16, int, 31>(); }
VC_PROOF(exact_31_31) { exact_case<int, 31, int, 31>(); }
VC_PROOF(exact_32_32) { exact_case<unsigned, 32, unsigned, 32>(); }
template<int N> void bit_fields_case() {
    image::BitField f[4];
    int n = vc::any<int>(), avail = vc::any<int>();
    vc_assume(n >= 0 && n <= N);
    for (int i = 0; i < N; ++i) f[i] = { vc::any<int>(), vc::any<int>() };
    i128 sum = 0; bool good = true; int widest = 0;
    for (int i = 0; i < N; ++i) if (i < n) { good &= f[i].width >= 1 && f[i].gap >= 0; sum += i128(f[i].width) + f[i].gap; if (f[i].width > widest) widest = f[i].width; }
    for (int k = 0; k <= N; ++k) if (n == k) {
        bool v = image::valid_bit_fields(f, k, avail);
        vc_check(v == (good && sum <= i128(avail) && (sum <= 0x7fffffff)), "validity of a sequence of bit fields");
        vc_check(image::widest_bit_field(f, k) == widest, "width of the widest field");
        if (v && avail <= 64) {
            int j = vc::any<int>();
            for (int i = 0; i < k; ++i) if (j == i) {
                int s = f[i].gap; for (int h = i + 1; h < k; ++h) s += f[h].width + f[h].gap;
                vc_check(image::get_bit_field_width(f, k, i) == f[i].width && image::get_bit_field_shift(f, k, i) == s, "position of a field");
                vc_check(image::unpack_int<64>(image::get_bit_field_mask<long>(f, k, i)) == std::uint64_t(mask(f[i].width) << s), "mask of a field");
                vc_check(image::get_bit_field_mask<unsigned long>(f, k, i) == std::uint64_t(mask(f[i].width) << s), "mask of a field");
            }
        }
    }
}
VC_PROOF(bit_fields_3) { bit_fields_case<3>(); }
VC_PROOF(bit_fields_4) /*: tier=thorough */ { bit_fields_case<4>(); }
template<class I, class F> void to_int_case() {
    F f = vc::any<F>();
    I mx = std::numeric_limits<I>::max();
    I r = uf::flt_to_int<I>(f, mx), a = uf::flt_to_int_a<I>(f, mx);
    if (!(f > F(0))) vc_check(r == 0 && a == 0, "negative values and NaN become zero");
    if (f >= F(1)) vc_check(r == mx && a == mx, "values above one become the maximum");
    vc_check(r >= 0 && r <= mx && a >= 0 && a <= mx, "result is in range");
    if (f >= F(0) && f < F(1)) {
        F s = f * F(2 * F(mx / 2 + 1));   // exact: a power of two
        vc_check(F(r) <= s && s < F(r) + F(1), "interval of the value");
    }
}
VC_PROOF(float_to_8) { to_int_case<unsigned char, float>(); }
VC_PROOF(float_to_16) { to_int_case<unsigned short, float>(); }
VC_PROOF(double_to_16) /*: tier=thorough */ { to_int_case<unsigned short, double>(); }
VC_PROOF(float_to_s8) { to_int_case<signed char, float>(); }
template<int mx> void max_case() {
    float f = vc::any<float>();
    int r = uf::flt_to_int<int>(f, mx), a = uf::flt_to_int_a<int>(f, mx);
    vc_check(r >= 0 && r <= mx && a >= 0 && a <= mx, "result is in range");
    if (!(f > 0.0f)) vc_check(r == 0 && a == 0, "negative values and NaN become zero");
    if (f >= 1.0f) vc_check(r == mx && a == mx, "values above one become the maximum");
}
VC_PROOF(float_max) /*: tier=thorough */ {
    switch (vc::any<std::uint8_t>()) {
        case 0: return max_case<1>();
        case 1: return max_case<255>();
        case 2: return max_case<1000>();
        case 3: return max_case<65535>();
    }
}
template<class F, class I> void trip(int mx) {
    for (int v = 0; v <= mx; ++v) {
        F f = uf::int_to_flt<F>(I(v), I(mx));
        vc_check(f >= F(0) && f <= F(1), "fraction is in range");
        vc_check(v != 0 || f == F(0), "zero"); vc_check(v != mx || f == F(1), "one");
        // (in single precision, the default model recovers the value only up to 12 bits; see unit_frac.hpp)
        int r = uf::flt_to_int<I>(f, I(mx));
        vc_check(r == v || (sizeof(F) == 4 && mx >= 4096 && r == v + 1), "round trip through floating point");
        vc_check(uf::flt_to_int_a<I>(f, I(mx)) == v, "round trip through floating point, alternate model");
    }
}
VC_PROOF(float_trip) /*: native=1 bound=all_values_of_integer_representations_of_up_to_16_bits */ {
    for (int n = 1; n <= 8; ++n) trip<float, unsigned char>((1 << n) - 1);
    for (int n = 1; n <= 16; ++n) { trip<double, unsigned short>((1 << n) - 1); trip<double, int>((1 << n) - 1); trip<float, int>((1 << n) - 1); }
    for (int mx = 1; mx < 1500; mx += 1) trip<float, int>(mx);
    constexpr auto r8 = image::CompRepr::int8, r16 = image::CompRepr::int16, fl = image::CompRepr::float_;
    float last = -1;
    for (int v = 0; v < 256; ++v) {
        auto c = image::comp_repr_pack<r8>(v);
        float f = image::alpha_comp_to_float<r8>(c), g = image::color_comp_to_float<r8>(c);
        vc_check(image::alpha_comp_from_float<r8>(f) == c, "alpha component survives a round trip through floating point");
        vc_check(image::color_comp_from_float<r8>(g) == c, "color component survives a round trip through floating point");
        vc_check(g > last, "gamma expansion is strictly increasing"); last = g;
    }
    vc_check(last == 1, "maximum");
    last = -1;
    for (int v = 0; v < 65536; ++v) {
        auto c = image::comp_repr_pack<r16>(v);
        float f = image::alpha_comp_to_float<r16>(c), g = image::color_comp_to_float<r16>(c);
        int a = image::comp_repr_unpack<r16>(image::alpha_comp_from_float<r16>(f)), b = image::comp_repr_unpack<r16>(image::color_comp_from_float<r16>(g));
        vc_check(f == float(v) / 65535.0f && (a == v || a == v + 1), "alpha component survives a round trip through floating point, up to one unit");
        vc_check(b >= v - 1 && b <= v + 1, "color component survives a round trip through floating point, up to one unit");
        vc_check(g > last, "gamma expansion is strictly increasing"); last = g;
    }
    vc_check(last == 1, "maximum");
    // pixels with premultiplied alpha: opaque pixels convert exactly, transparent pixels become zero
    for (int v = 0; v < 256; ++v) for (int a : { 255, 128, 1, 0 }) {
        image::comp_type<r8> p[4] = { image::comp_repr_pack<r8>(v), image::comp_repr_pack<r8>(255 - v), image::comp_repr_pack<r8>(v / 2), image::comp_repr_pack<r8>(a) }, q[4];
        image::comp_type<fl> f[4];
        image::comp_repr_convert<r8, fl>(p, f, 4, true);
        for (int i = 0; i < 3; ++i) vc_check(f[i] == image::alpha_comp_to_float<r8>(p[3]) * image::color_comp_to_float<r8>(p[i]), "premultiplied");
        vc_check(f[3] == image::alpha_comp_to_float<r8>(p[3]), "alpha is not gamma compressed");
        image::comp_repr_convert<fl, r8>(f, q, 4, true);
        for (int i = 0; i < 4; ++i) vc_check(q[i] == (a == 0 ? image::comp_type<r8>(0) : p[i]), "conversion to floating point and back");
        image::comp_repr_convert<r8, fl>(p, f, 4, false);
        for (int i = 0; i < 4; ++i) vc_check(f[i] == image::color_comp_to_float<r8>(p[i]), "without alpha channel");
        image::comp_repr_convert<fl, r8>(f, q, 4, false);
        for (int i = 0; i < 4; ++i) vc_check(q[i] == p[i], "conversion to floating point and back");
    }
}

// Formatting and parsing of integers.
//: switch-tables
#include <array>
#include <string>
#include <string_view>
#include <limits>
#include <stdexcept>
#include <archon/core/integer_formatter.hpp>
#include <archon/core/integer_parser.hpp>
#include "vc.hpp"
using namespace archon;
using vc::i128; using vc::u128;
using Fmt = core::IntegerFormatter;
using Par = core::IntegerParser;
using Sign = Par::Sign;
static int value(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : c >= 'a' && c <= 'z' ? c - 'a' + 10 : 99; }
static char letter(int d, bool lc) { return char(d < 10 ? '0' + d : (lc ? 'a' : 'A') + (d - 10)); }
// The text is an optional minus sign followed by the digits of the magnitude (obtained by repeated division), padded with zeros.
template<class I> static void expect(std::string_view s, I v, int radix, int mn, bool lc) {
    using P = decltype(core::promote_strongly(v));
    P q = v; bool neg = v < 0;
    std::size_t n = s.size(), k = 0, lo = neg ? 1 : 0;
    vc_check(n >= lo && (!neg || s[0] == '-'), "sign");
    for (;;) {
        bool more = q != 0 || int(k) < mn;
        vc_check(more == (k < n - lo), "number of digits");
        if (k >= n - lo) break;
        int d = neg ? -int(q % P(radix)) : int(q % P(radix));
        vc_check(s[n - 1 - k] == letter(d, lc), "digit");
        q = P(q / P(radix)); ++k;
    }
}
template<class I, int radix> static void fmt(int maxmin) {
    I v = vc::any<I>(); int mn = vc::any<int>(); vc_assume(mn <= maxmin); bool lc = vc::any<bool>();
    core::CharMapper mapper; Fmt f(mapper);
    if (lc) f.use_lowercase();
    std::string_view s = f.template format<radix>(v, mn);
    if (mn < 0) mn = core::int_max_digits<I>(radix);
    expect<I>(s, v, radix, mn, lc);
}
//: proof fmt_ loops=unroll bounded=70 bound=at_most_3_digits_requested time=300
VC_PROOF(fmt_bin_s8) { fmt<signed char, 2>(3); }
VC_PROOF(fmt_hex_u8) { fmt<unsigned char, 16>(3); }
VC_PROOF(fmt_hex_s16) { fmt<short, 16>(3); }
VC_PROOF(fmt_hex_int) { fmt<int, 16>(3); }
VC_PROOF(fmt_hex_u64) { fmt<unsigned long, 16>(3); }
VC_PROOF(fmt_oct_s64) { fmt<long, 8>(3); }
VC_PROOF(fmt_dec_u8) { fmt<unsigned char, 10>(3); }
VC_PROOF(fmt_dec_s16) { fmt<short, 10>(3); }
VC_PROOF(fmt_dec_bool) { fmt<bool, 10>(3); }
VC_PROOF(fmt_r36_s16) { fmt<short, 36>(3); }
VC_PROOF(fmt_r3_u8) { fmt<unsigned char, 3>(3); }
VC_PROOF(fmt_dec_int) { fmt<int, 10>(3); }
//: proof fmt_dec_u64 loops=unroll bounded=70 bound=at_most_3_digits_requested time=800 tier=thorough
//: proof fmt_dec_s64 loops=unroll bounded=70 bound=at_most_3_digits_requested time=800 tier=thorough
//: proof fmt_hex_int_wide loops=unroll bounded=80 bound=at_most_70_digits_requested time=800 tier=thorough
VC_PROOF(fmt_dec_u64) { fmt<unsigned long, 10>(3); }
VC_PROOF(fmt_dec_s64) { fmt<long, 10>(3); }
VC_PROOF(fmt_hex_int_wide) { fmt<int, 16>(70); }
// Requested widths around and beyond the in-place memory, and every radix, on a few values.
template<class I> static void widths(I v) {
    core::CharMapper mapper;
    for (int radix = 2; radix <= 36; ++radix) for (int mn : { -1, 0, 1, 2, 10, 63, 64, 65, 66, 67, 100, 300 }) {
        Fmt f(mapper); expect<I>(f.format_a(v, radix, mn), v, radix, mn < 0 ? core::int_max_digits<I>(radix) : mn, false);
        expect<I>(f.format_a(v, radix, 1), v, radix, 1, false);       // the formatter is reusable
        I w = I(v ^ I(1)); Par q(mapper);
        if (radix == 16) vc_check(q.template parse<16>(f.format_hex(v, mn), w) == (v != 0 || mn != 0) && (w == v || (v == 0 && mn == 0)), "hexadecimal round trip");
        if (radix == 10) { w = I(v ^ I(1)); vc_check(q.template parse<10>(f.format_dec(v, mn), w) == (v != 0 || mn != 0) && (w == v || (v == 0 && mn == 0)), "decimal round trip"); }
        if (radix == 2) { w = I(v ^ I(1)); vc_check(q.template parse<2>(f.format_bin(v, mn), w) == (v != 0 || mn != 0) && (w == v || (v == 0 && mn == 0)), "binary round trip"); }
        if (radix == 8) { w = I(v ^ I(1)); vc_check(q.template parse<8>(f.format_oct(v, mn), w) == (v != 0 || mn != 0) && (w == v || (v == 0 && mn == 0)), "octal round trip"); }
    }
}
template<class I> static void widths_of() {
    for (int k = 0; k < 12; ++k) { widths<I>(I(std::numeric_limits<I>::max() - I(k))); widths<I>(I(std::numeric_limits<I>::min() + I(k))); widths<I>(I(k)); widths<I>(I(-k)); }
    for (int k = 0; k < std::numeric_limits<I>::digits; k += 3) widths<I>(I(std::numeric_limits<I>::max() >> k));
}
VC_PROOF(widths) /*: native=1 bound=extreme_values_with_every_radix_and_chosen_widths */ {
    widths_of<signed char>(); widths_of<unsigned char>(); widths_of<short>(); widths_of<unsigned short>(); widths_of<int>(); widths_of<unsigned>(); widths_of<long>(); widths_of<unsigned long>();
    core::CharMapper mapper; Fmt f(mapper); for (int r : { -1, 0, 1, 37, 1000 }) { bool t = false; try { f.format_a(5, r); } catch (std::invalid_argument&) { t = true; } vc_check(t, "unsupported radix is refused"); }
}
// Parsing succeeds exactly for an accepted sign followed by digits of a representable value.
template<class I, int radix, Sign sign, int N> static void par() {
    char s[N]; for (char& c : s) c = vc::any<char>();
    std::size_t n = vc::any_size(); vc_assume(n <= N);
    constexpr bool minus = sign == Sign::accept || sign == Sign::accept_minus || (sign == Sign::auto_ && std::is_signed_v<I>), plus = sign == Sign::accept;
    bool neg = n > 0 && minus && s[0] == '-', sgn = neg || (n > 0 && plus && s[0] == '+');
    std::size_t b = sgn ? 1 : 0;
    bool ok = n > b; long x = 0;
    constexpr i128 lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    for (std::size_t k = 0; k < N; ++k) if (k >= b && k < n) {
        int d = value(s[k]);
        if (d >= radix) ok = false;
        if (ok) { x = x * radix + (neg ? -d : d); ok = i128(x) >= lo && i128(x) <= hi; }
    }
    I v = vc::any<I>(), v0 = v;
    core::CharMapper mapper; Par p(mapper);
    bool r = p.template parse<radix, sign>(std::string_view(s, n), v);
    vc_check(r == ok, "accepted exactly when it is a representable integer");
    vc_check(v == (r ? I(x) : v0), "the represented value, or untouched");
}
//: proof par_ loops=unroll bounded=5 bound=texts_of_at_most_5_characters time=300
//: proof parx_ loops=unroll bounded=5 bound=texts_of_at_most_5_characters time=800 tier=thorough
VC_PROOF(par_dec_s8) { par<signed char, 10, Sign::auto_, 5>(); }
VC_PROOF(par_dec_u8) { par<unsigned char, 10, Sign::accept, 4>(); }
VC_PROOF(parx_dec_u8) { par<unsigned char, 10, Sign::accept, 5>(); }
VC_PROOF(par_hex_s8) { par<signed char, 16, Sign::accept, 4>(); }
VC_PROOF(parx_hex_s16) { par<short, 16, Sign::accept, 5>(); }
VC_PROOF(par_hex_u16) { par<unsigned short, 16, Sign::auto_, 4>(); }
VC_PROOF(parx_hex_u16) { par<unsigned short, 16, Sign::auto_, 5>(); }
VC_PROOF(par_oct_s8) { par<signed char, 8, Sign::reject, 4>(); }
VC_PROOF(par_r36_s8) { par<signed char, 36, Sign::auto_, 4>(); }
VC_PROOF(par_dec_int) { par<int, 10, Sign::accept_minus, 4>(); }
VC_PROOF(par_r36_int) { par<int, 36, Sign::auto_, 3>(); }
VC_PROOF(par_bin_u64) { par<unsigned long, 2, Sign::accept_minus, 4>(); }
VC_PROOF(par_bin_bool) { par<bool, 2, Sign::auto_, 3>(); }
// Longer texts: the limits of every type, with leading zeros, in every radix used by the library.
template<class I, int radix> static void limits_of() {
    constexpr i128 lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    core::CharMapper mapper; Par p(mapper);
    for (i128 c : { lo, hi, lo / radix, hi / radix, lo * radix, hi * radix, i128(0) }) for (int d = -40; d <= 40; ++d) for (int z = 0; z < 3; ++z) for (int sign = 0; sign < 3; ++sign) for (int lc = 0; lc < 2; ++lc) {
        i128 x = c + d; u128 m = x < 0 ? u128(-x) : u128(x);
        if (sign == 1 && x >= 0) continue;
        char t[140]; int n = 140;
        do { t[--n] = letter(int(m % radix), lc); m /= radix; } while (m);
        for (int k = 0; k < z; ++k) t[--n] = '0';
        if (x < 0) t[--n] = '-'; else if (sign == 2) t[--n] = '+';
        std::string_view s(t + n, std::size_t(140 - n));
        bool rep = x >= lo && x <= hi;
        I v = I(77 & 1), v0 = v;
        bool a = p.template parse<radix>(s, v);
        bool e = rep && s[0] != '+' && (std::is_signed_v<I> || s[0] != '-');
        vc_check(a == e && v == (e ? I(x) : v0), "parsing near the limits (sign as for the type)");
        v = v0; a = p.template parse<radix, Sign::accept>(s, v);
        vc_check(a == rep && v == (rep ? I(x) : v0), "parsing near the limits (sign accepted)");
        v = v0; a = p.template parse<radix, Sign::reject>(s, v); e = rep && s[0] != '+' && s[0] != '-';
        vc_check(a == e && v == (e ? I(x) : v0), "parsing near the limits (sign rejected)");
    }
}
template<class I> static void limits_r() { limits_of<I, 2>(); limits_of<I, 3>(); limits_of<I, 8>(); limits_of<I, 10>(); limits_of<I, 16>(); limits_of<I, 36>(); }
VC_PROOF(limits) /*: native=1 bound=neighbourhoods_of_the_limits_of_every_type_in_6_radices */ {
    limits_r<signed char>(); limits_r<unsigned char>(); limits_r<short>(); limits_r<unsigned short>(); limits_r<int>(); limits_r<unsigned>(); limits_r<long>(); limits_r<unsigned long>();
}

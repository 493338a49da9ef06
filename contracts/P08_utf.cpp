// UTF-8 / UTF-16 encoding, decoding and transcoding steps.
#include <string>
#include <archon/core/unicode.hpp>
#include "vc.hpp"
using namespace archon;
using u32 = std::uint32_t;
static bool valid(u32 v) { return v < 0xD800 || (v >= 0xE000 && v < 0xFFFE) || (v >= 0x10000 && v < 0x110000); }
// length of the well-formed UTF-8 sequence at p; 0: ill-formed; -1: ends early
static int utf8_seq(const char* p, std::size_t n, u32& v) {
    u32 a = (unsigned char)p[0];
    if (a < 0x80) { v = a; return 1; }
    if (a < 0xC0 || a >= 0xF8) return 0;
    std::size_t k = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4;
    if (n < k) return -1;
    u32 b = (unsigned char)p[1], c = k > 2 ? (unsigned char)p[2] : 0x80, d = k > 3 ? (unsigned char)p[3] : 0x80;
    if (b / 64 != 2 || c / 64 != 2 || d / 64 != 2) return 0;
    b %= 64; c %= 64; d %= 64;
    if (k == 2) { v = a % 32 * 64 + b; return v >= 0x80 ? 2 : 0; }
    if (k == 3) { v = a % 16 * 4096 + b * 64 + c; return v >= 0x800 && valid(v) ? 3 : 0; }
    v = a % 8 * 0x40000 + b * 4096 + c * 64 + d;
    return v >= 0x10000 && valid(v) ? 4 : 0;
}
static int utf16_seq(const char16_t* p, std::size_t n, u32& v) {
    u32 a = std::char_traits<char16_t>::to_int_type(p[0]); // the library defines code units by their unpacked value
    if (a < 0xD800 || a >= 0xE000) { v = a; return valid(a) ? 1 : 0; }
    if (a >= 0xDC00) return 0;
    if (n < 2) return -1;
    u32 b = std::char_traits<char16_t>::to_int_type(p[1]);
    if (b < 0xDC00 || b >= 0xE000) return 0;
    v = 0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00);
    return 2;
}
static int utf32_seq(const char32_t* p, std::size_t, u32& v) { v = p[0]; return valid(v) ? 1 : 0; }
static int put_utf8(u32 v, char* o) {
    if (v < 0x80) { o[0] = char(v); return 1; }
    if (v < 0x800) { o[0] = char(0xC0 | v >> 6); o[1] = char(0x80 | (v & 63)); return 2; }
    if (v < 0x10000) { o[0] = char(0xE0 | v >> 12); o[1] = char(0x80 | (v >> 6 & 63)); o[2] = char(0x80 | (v & 63)); return 3; }
    o[0] = char(0xF0 | v >> 18); o[1] = char(0x80 | (v >> 12 & 63)); o[2] = char(0x80 | (v >> 6 & 63)); o[3] = char(0x80 | (v & 63)); return 4;
}
static int put_utf16(u32 v, char16_t* o) {
    if (v < 0x10000) { o[0] = char16_t(v); return 1; }
    o[0] = char16_t(0xD800 + ((v - 0x10000) >> 10)); o[1] = char16_t(0xDC00 + ((v - 0x10000) & 0x3FF)); return 2;
}
static int put_utf32(u32 v, char32_t* o) { o[0] = v; return 1; }
static int put_bmp(u32 v, char16_t* o) { if (v >= 0x10000) return 0; o[0] = char16_t(v); return 1; }
// Functional contract: every input of at most N units, every output space of at most M units.
template<class C, class D, int N, int M, class F, class G, class P> static void functional(F f, G seq, P put) {
    std::size_t n = vc::any_size(), m = vc::any_size();
    vc_assume(n <= N && m <= M);
    C in[N]; for (int i = 0; i < N; ++i) in[i] = vc::any<C>();
    D out[M]; for (int i = 0; i < M; ++i) out[i] = D(7);
    std::size_t io = vc::any_size(), oo = vc::any_size();
    vc_assume(io <= n && oo <= m);
    std::size_t i = io, o = oo; bool ex = false, err = false;
    f(core::Span<const C>(in, n), core::Span<D>(out, m), i, o, ex, err);
    std::size_t ri = io, ro = oo; bool rex = false, rerr = false;
    for (int step = 0; step <= N; ++step) {
        if (ri == n) { rex = true; break; }
        u32 v = 0; D tmp[4];
        int k = seq(in + ri, n - ri, v);
        if (k < 0) { rex = true; break; }
        if (k == 0) { rerr = true; break; }
        int w = put(v, tmp);
        if (w == 0) { rerr = true; break; }
        if (m - ro < std::size_t(w)) break;
        for (int j = 0; j < w; ++j) vc_check(out[ro + j] == tmp[j], "output code units");
        ri += k; ro += w;
    }
    vc_check(ex == rex && (rex || err == rerr), "outcome");
    vc_check(i == ri && o == ro, "progress");
    for (std::size_t j = 0; j < M; ++j) if (j >= ro) vc_check(out[j] == D(7), "nothing is written beyond the reported output");
}
// Safety contract: any sizes.
template<class C, class D, class F> static void safety(F f) {
    std::size_t n = vc::any_size(), m = vc::any_size(), i = vc::any_size(), o = vc::any_size();
    C* in = vc::array<C>(n); D* out = vc::array<D>(m);
    vc_assume(i <= n && o <= m);
    std::size_t i0 = i, o0 = o; bool ex = false, err = false;
    f(core::Span<const C>(in, n), core::Span<D>(out, m), i, o, ex, err);
    vc_check(i >= i0 && i <= n && o >= o0 && o <= m, "offsets stay inside the given spans");
    vc_check(!(ex && err), "a single outcome is reported");
    vc_check(i == n ? ex : true, "all input consumed means exhausted");
    vc_check(!ex || n - i < 4, "at most an incomplete sequence is left behind");
}
#define FN(name, C, D) [](core::Span<const C> a, core::Span<D> b, std::size_t& i, std::size_t& o, bool& x, bool& e) { core::name<C, D>(a, b, i, o, x, e); }
VC_PROOF(encode_utf8) /*: loops=unroll bounded=8 bound=inputs_of_at_most_2_characters_and_outputs_of_at_most_6_bytes */ { functional<char32_t, char, 2, 6>(FN(encode_utf8_incr, char32_t, char), utf32_seq, put_utf8); }
VC_PROOF(decode_utf8) /*: loops=unroll bounded=8 bound=inputs_of_at_most_5_bytes_and_outputs_of_at_most_2_characters */ { functional<char, char32_t, 5, 2>(FN(decode_utf8_incr, char, char32_t), utf8_seq, put_utf32); }
VC_PROOF(decode_utf8_bmp) /*: loops=unroll bounded=8 bound=inputs_of_at_most_4_bytes_and_outputs_of_at_most_2_characters */ { functional<char, char16_t, 4, 2>(FN(decode_utf8_incr, char, char16_t), utf8_seq, put_bmp); }
VC_PROOF(encode_utf16) /*: loops=unroll bounded=8 bound=inputs_of_at_most_2_characters_and_outputs_of_at_most_4_units */ { functional<char32_t, char16_t, 2, 4>(FN(encode_utf16_incr, char32_t, char16_t), utf32_seq, put_utf16); }
VC_PROOF(decode_utf16) /*: loops=unroll bounded=8 bound=inputs_of_at_most_4_units_and_outputs_of_at_most_2_characters */ { functional<char16_t, char32_t, 4, 2>(FN(decode_utf16_incr, char16_t, char32_t), utf16_seq, put_utf32); }
VC_PROOF(utf8_to_utf16) /*: loops=unroll bounded=8 bound=inputs_of_at_most_5_bytes_and_outputs_of_at_most_3_units */ { functional<char, char16_t, 5, 3>(FN(utf8_to_utf16_incr, char, char16_t), utf8_seq, put_utf16); }
VC_PROOF(utf16_to_utf8) /*: loops=unroll bounded=8 bound=inputs_of_at_most_3_units_and_outputs_of_at_most_6_bytes */ { functional<char16_t, char, 3, 6>(FN(utf16_to_utf8_incr, char16_t, char), utf16_seq, put_utf8); }
VC_PROOF(safe_encode_utf8) /*: loops=inv */ { safety<char32_t, char>(FN(encode_utf8_incr, char32_t, char)); }
VC_PROOF(safe_decode_utf8) /*: loops=inv */ { safety<char, char32_t>(FN(decode_utf8_incr, char, char32_t)); }
VC_PROOF(safe_encode_utf16) /*: loops=inv */ { safety<char32_t, char16_t>(FN(encode_utf16_incr, char32_t, char16_t)); }
VC_PROOF(safe_decode_utf16) /*: loops=inv */ { safety<char16_t, char32_t>(FN(decode_utf16_incr, char16_t, char32_t)); }
VC_PROOF(safe_utf8_to_utf16) /*: loops=inv */ { safety<char, char16_t>(FN(utf8_to_utf16_incr, char, char16_t)); }
VC_PROOF(safe_utf16_to_utf8) /*: loops=inv */ { safety<char16_t, char>(FN(utf16_to_utf8_incr, char16_t, char)); }
// Whole-string lenient conversion: text before the offset is kept, every well-formed sequence is
// converted, every maximal ill-formed piece becomes one replacement character.
static bool lead8(char c) { u32 a = (unsigned char)c; return a < 0x80 || (a >= 0xC0 && a < 0xF8); }
static bool lead16(char16_t c) { u32 a = std::char_traits<char16_t>::to_int_type(c); return a < 0xDC00 || a >= 0xE000; }
static bool lead32(char32_t) { return true; }
static int put_repl(u32, char* o) { return put_utf8(0xFFFD, o); }
static int put_repl(u32, char16_t* o) { o[0] = 0xFFFD; return 1; }
static int put_repl(u32, char32_t* o) { o[0] = 0xFFFD; return 1; }
template<class C, class D, int N, class F, class G, class L, class P> static void lenient(F f, G seq, L lead, P put) {
    std::size_t n = vc::any_size();
    vc_assume(n <= N);
    C in[N]; for (int i = 0; i < N; ++i) in[i] = vc::any<C>();
    core::Buffer<D> buf(1);
    D first = vc::any<D>();
    buf[0] = first;
    std::size_t keep = vc::any_size();
    vc_assume(keep <= 1);
    std::size_t end = keep;
    f(core::StringSpan<C>(in, n), buf, end);
    vc_check(end >= keep && end <= buf.size(), "offset stays inside the buffer");
    vc_check(keep == 0 || buf[0] == first, "text before the offset is kept");
    std::size_t i = 0, o = keep;
    bool same = true;
    for (int step = 0; step < N; ++step) {
        if (i == n) break;
        u32 v = 0; D tmp[4];
        int k = seq(in + i, n - i, v);
        int w = k > 0 ? put(v, tmp) : 0;
        if (w > 0) i += k;
        else { ++i; while (i < n && !lead(in[i])) ++i; w = put_repl(0, tmp); }
        for (int j = 0; j < w; ++j) { if (o < end) same = same && buf[o] == tmp[j]; ++o; }
    }
    vc_check(o == end, "length of converted text");
    vc_check(same, "converted text");
}
#define FL(name, C, D) [](core::StringSpan<C> a, core::Buffer<D>& b, std::size_t& o) { core::name<C, D>(a, b, o); }
VC_PROOF(lenient_encode_utf8) /*: loops=unroll bounded=8 bound=inputs_of_at_most_3_characters */ { lenient<char32_t, char, 3>(FL(encode_utf8_l, char32_t, char), utf32_seq, lead32, put_utf8); }
VC_PROOF(lenient_decode_utf8) /*: loops=unroll bounded=8 bound=inputs_of_at_most_3_bytes */ { lenient<char, char32_t, 3>(FL(decode_utf8_l, char, char32_t), utf8_seq, lead8, put_utf32); }
VC_PROOF(lenient_encode_utf16) /*: loops=unroll bounded=8 bound=inputs_of_at_most_3_characters */ { lenient<char32_t, char16_t, 3>(FL(encode_utf16_l, char32_t, char16_t), utf32_seq, lead32, put_utf16); }
VC_PROOF(lenient_decode_utf16) /*: loops=unroll bounded=8 bound=inputs_of_at_most_4_units */ { lenient<char16_t, char32_t, 4>(FL(decode_utf16_l, char16_t, char32_t), utf16_seq, lead16, put_utf32); }
VC_PROOF(lenient_utf8_to_utf16) /*: loops=unroll bounded=8 bound=inputs_of_at_most_3_bytes */ { lenient<char, char16_t, 3>(FL(utf8_to_utf16_l, char, char16_t), utf8_seq, lead8, put_utf16); }
VC_PROOF(lenient_utf16_to_utf8) /*: loops=unroll bounded=8 bound=inputs_of_at_most_3_units */ { lenient<char16_t, char, 3>(FL(utf16_to_utf8_l, char16_t, char), utf16_seq, lead16, put_utf8); }

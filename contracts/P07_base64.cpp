// Base64 encoding and decoding (RFC 4648).
#include <array>
#include <string>
#include <string_view>
#include <limits>
#include <locale>
#include <memory>
#define private public
#include <archon/core/base64.hpp>
#undef private
#include <archon/core/base64.cpp>
#include "vc.hpp"
using namespace archon;
namespace base64 = core::base64;
using vc::u128;
static char chr(unsigned v, bool url) {
    return v < 26 ? char('A' + v) : v < 52 ? char('a' + (v - 26)) : v < 62 ? char('0' + (v - 52)) : v == 62 ? (url ? '-' : '+') : (url ? '_' : '/');
}
static base64::EncodeConfig any_enc() {
    base64::EncodeConfig c;
    c.url_safe_variant = vc::any<bool>(); c.use_padding = vc::any<bool>(); c.line_size = vc::any<std::size_t>();
    return c;
}
static base64::DecodeConfig any_dec() {
    base64::DecodeConfig c;
    c.url_safe_variant = vc::any<bool>(); c.allow_whitespace = vc::any<bool>();
    unsigned p = vc::any<std::uint8_t>(); vc_assume(p < 3);
    c.padding = base64::DecodeConfig::Padding(p);
    return c;
}
VC_PROOF(encode_buffer_size) {
    std::size_t n = vc::any<std::size_t>();
    auto c = any_enc();
    std::size_t r = n % 3;
    u128 chars = u128(n / 3) * 4 + (r == 0 ? 0 : c.use_padding ? 4 : r + 1);
    u128 m = ~std::size_t(0);
    bool fits = chars <= m;
    std::size_t ch = std::size_t(chars);
    if (fits && c.line_size != 0) { std::size_t q = ch / c.line_size, rr = ch % c.line_size; chars += u128(q) + (rr != 0); fits = chars <= m; }
    bool thrown = false; std::size_t s = 0;
    try { s = base64::encode_buffer_size(n, c); } catch (const std::length_error&) { thrown = true; }
    vc_check(thrown == !fits, "length error exactly when the size is not representable");
    vc_check(thrown || s == std::size_t(chars), "required buffer size");
}
VC_PROOF(decode_buffer_size) {
    std::size_t n = vc::any<std::size_t>();
    std::size_t r = n % 4;
    std::size_t s = base64::decode_buffer_size(n);
    // an upper bound on the decoded size of n regular characters, and tight when n is the size of an unpadded encoding
    vc_check(u128(s) >= u128(n / 4) * 3 + (r == 3 ? 2 : r == 2 ? 1 : 0), "decode buffer large enough");
    vc_check(r == 1 || u128(s) == u128(n / 4) * 3 + (r == 3 ? 2 : r == 2 ? 1 : 0), "decode buffer tight");
}
// Encoder as a transducer: abstract state = (collected bytes, queued characters, column).
static std::size_t min(std::size_t a, std::size_t b) { return a < b ? a : b; }
static void enc_step(bool ho0, bool ln0) {
    base64::IncrementalEncoder e(any_enc());
    auto c = e.m_config;
    e.m_holding_output = vc::any<bool>();
    e.m_holding_size = vc::any<signed char>();
    e.m_line_size = vc::any<std::size_t>();
    for (int i = 0; i < 4; ++i) e.m_hold_buffer[i] = vc::any<char>();
    vc_assume(e.m_line_size <= c.line_size);
    vc_assume(e.m_holding_output == ho0 && (c.line_size > 0) == ln0);
    if (e.m_holding_output) {
        vc_assume(e.m_holding_size >= 0 && e.m_holding_size <= 4);
        vc_assume(e.m_holding_size > 0 || (c.line_size > 0 && e.m_line_size == c.line_size));
    }
    else {
        vc_assume(e.m_holding_size >= 0 && e.m_holding_size < 3);
        vc_assume(c.line_size == 0 || e.m_line_size < c.line_size);
    }
    // abstraction
    char pend[3] = {}; int np = 0; char q[4] = {}; int nq = 0; std::size_t line = e.m_line_size;
    if (e.m_holding_output) { nq = e.m_holding_size; for (int i = 0; i < 4; ++i) if (i < nq) q[i] = e.m_hold_buffer[4 - nq + i]; }
    else { np = e.m_holding_size; for (int i = 0; i < 3; ++i) pend[i] = e.m_hold_buffer[i]; }
    char data[2]; data[0] = vc::any<char>(); data[1] = vc::any<char>();
    std::size_t n = vc::any_size(); vc_assume(n <= 1);
    std::size_t m = vc::any_size(); vc_assume(m <= 2);
    bool eoi = vc::any<bool>();
    char out[2] = { 'x', 'x' };
    const char* d = data; char* o = out;
    bool done = e.encode(d, data + n, eoi, o, out + m);
    // specification
    char ref[2] = { 'x', 'x' }; std::size_t no = 0, nd = 0; bool rdone = false;
    for (int step = 0; step < 8; ++step) {
        bool full = c.line_size != 0 && line == c.line_size;
        if (full || nq > 0) {
            if (no == m) break;
            if (full) { ref[no++] = '\n'; line = 0; continue; }
            ref[no++] = q[0]; q[0] = q[1]; q[1] = q[2]; q[2] = q[3]; --nq;
            if (c.line_size != 0) ++line;
            continue;
        }
        unsigned b0 = (unsigned char)pend[0], b1 = (unsigned char)pend[1];
        if (nd < n) {
            pend[np++] = data[nd++];
            if (np == 3) {
                unsigned b2 = (unsigned char)pend[2];
                q[0] = chr(b0 >> 2, c.url_safe_variant); q[1] = chr((b0 & 3) * 16 + (b1 >> 4), c.url_safe_variant);
                q[2] = chr((b1 & 15) * 4 + (b2 >> 6), c.url_safe_variant); q[3] = chr(b2 & 63, c.url_safe_variant);
                nq = 4; np = 0;
            }
            continue;
        }
        if (!eoi) break;
        if (np > 0) {
            if (np == 1) b1 = 0;
            q[0] = chr(b0 >> 2, c.url_safe_variant); q[1] = chr((b0 & 3) * 16 + (b1 >> 4), c.url_safe_variant);
            q[2] = np == 1 ? '=' : chr((b1 & 15) * 4, c.url_safe_variant); q[3] = '=';
            nq = c.use_padding ? 4 : np + 1; np = 0;
            continue;
        }
        if (c.line_size == 0 || line == 0) { rdone = true; break; }
        if (no == m) break;
        ref[no++] = '\n'; rdone = true; break;
    }
    vc_check(done == rdone, "completion");
    vc_check(std::size_t(d - data) == nd && std::size_t(o - out) == no, "progress");
    vc_check(out[0] == ref[0] && out[1] == ref[1], "output characters");
    if (!done) {
        bool ho = nq > 0 || (c.line_size != 0 && line == c.line_size);
        vc_check(e.m_holding_output == ho && int(e.m_holding_size) == (ho ? nq : np) && e.m_line_size == line, "next state");
        for (int i = 0; i < 4; ++i) { if (ho) { if (i < nq) vc_check(e.m_hold_buffer[4 - nq + i] == q[i], "queued characters"); } else if (i < np) vc_check(e.m_hold_buffer[i] == pend[i], "collected bytes"); }
    }
}
VC_PROOF(encode_step_collecting) /*: loops=unroll bounded=2 bound=any_state_with_chunks_of_at_most_1_input_byte_and_2_output_characters time=600 cost=5 */ { enc_step(false, false); }
VC_PROOF(encode_step_collecting_lines) /*: loops=unroll bounded=2 bound=any_state_with_chunks_of_at_most_1_input_byte_and_2_output_characters time=600 cost=5 */ { enc_step(false, true); }
VC_PROOF(encode_step_emitting) /*: loops=unroll bounded=2 bound=any_state_with_chunks_of_at_most_1_input_byte_and_2_output_characters time=600 cost=5 */ { enc_step(true, false); }
VC_PROOF(encode_step_emitting_lines) /*: loops=unroll bounded=2 bound=any_state_with_chunks_of_at_most_1_input_byte_and_2_output_characters time=600 cost=5 */ { enc_step(true, true); }
// Decoder as a transducer.
static int value(char ch, bool url) {
    if (ch >= 'A' && ch <= 'Z') return ch - 'A';
    if (ch >= 'a' && ch <= 'z') return ch - 'a' + 26;
    if (ch >= '0' && ch <= '9') return ch - '0' + 52;
    if (ch == (url ? '-' : '+')) return 62;
    if (ch == (url ? '_' : '/')) return 63;
    return -1;
}
VC_PROOF(decode_step) /*: loops=unroll bounded=2 bound=any_state_with_chunks_of_at_most_1_input_character_and_2_output_bytes time=600 */ {
    base64::IncrementalDecoder e(any_dec());
    auto c = e.m_config;
    e.m_holding_output = vc::any<bool>();
    e.m_holding_size = vc::any<signed char>();
    e.m_padding_size = vc::any<signed char>();
    for (int i = 0; i < 4; ++i) e.m_hold_buffer[i] = vc::any<char>();
    vc_assume(e.m_padding_size >= 0 && e.m_padding_size <= 2);
    if (e.m_padding_size > 0) vc_assume(c.padding != base64::DecodeConfig::reject);
    if (e.m_holding_output) {
        vc_assume(e.m_holding_size >= 1 && e.m_holding_size <= 3);
        vc_assume(e.m_padding_size == 0 || e.m_holding_size + e.m_padding_size <= 3);
    }
    else {
        vc_assume(e.m_holding_size >= 0 && e.m_holding_size < 4);
        for (int i = 0; i < 3; ++i) vc_assume((unsigned char)(e.m_hold_buffer[i]) < 64 || i >= e.m_holding_size);
        // incomplete padding: one '=' after two characters whose spare bits are zero; or complete
        if (e.m_padding_size > 0) vc_assume(e.m_holding_size == 0 || (e.m_holding_size == 2 && e.m_padding_size == 1 && (e.m_hold_buffer[1] & 15) == 0));
    }
    int v[4] = {}; int nv = 0; char q[3] = {}; int nq = 0; int pad = e.m_padding_size;
    if (e.m_holding_output) { nq = e.m_holding_size; for (int i = 0; i < 3; ++i) if (i < nq) q[i] = e.m_hold_buffer[4 - nq + i]; }
    else { nv = e.m_holding_size; for (int i = 0; i < 3; ++i) v[i] = (unsigned char)e.m_hold_buffer[i]; }
    char data[2]; data[0] = vc::any<char>(); data[1] = vc::any<char>();
    std::size_t n = vc::any_size(); vc_assume(n <= 1);
    std::size_t m = vc::any_size(); vc_assume(m <= 2);
    bool eoi = vc::any<bool>();
    char out[2] = { 'x', 'x' };
    const char* d = data; char* o = out;
    bool done = e.decode(d, data + n, eoi, o, out + m);
    char ref[2] = { 'x', 'x' }; std::size_t no = 0, nd = 0; bool rdone = false;
    for (int step = 0; step < 8; ++step) {
        if (nq > 0) {
            if (no == m) break;
            ref[no++] = q[0]; q[0] = q[1]; q[1] = q[2]; --nq;
            continue;
        }
        bool spare = nv == 3 ? (v[2] & 3) == 0 : nv == 2 ? (v[1] & 15) == 0 : false;
        bool flush = false;
        if (nd < n) {
            char ch = data[nd];
            int k = value(ch, c.url_safe_variant);
            if (k >= 0) {
                if (pad > 0) break;
                ++nd; v[nv++] = k;
                if (nv == 4) {
                    q[0] = char((v[0] << 2 | v[1] >> 4) & 255); q[1] = char((v[1] << 4 | v[2] >> 2) & 255); q[2] = char((v[2] << 6 | v[3]) & 255);
                    nq = 3; nv = 0;
                }
                continue;
            }
            if (ch == ' ' || ch == '\t' || ch == '\n') {
                if (!c.allow_whitespace) break;
                ++nd; continue;
            }
            if (ch == '=') {
                if (c.padding == base64::DecodeConfig::reject || !spare) break;
                ++nd; ++pad;
                if (nv + pad < 4) continue;
                flush = true;
            }
            if (!flush) break;
        }
        else {
            if (!eoi) break;
            if (nv == 0) { rdone = true; break; }
            if (pad > 0 || c.padding == base64::DecodeConfig::require || !spare) break;
            flush = true;
        }
        if (nv == 2) v[2] = 0;
        q[0] = char((v[0] << 2 | v[1] >> 4) & 255); q[1] = char((v[1] << 4 | v[2] >> 2) & 255);
        nq = nv - 1; nv = 0;
    }
    vc_check(done == rdone, "completion");
    vc_check(std::size_t(d - data) == nd && std::size_t(o - out) == no, "progress");
    vc_check(out[0] == ref[0] && out[1] == ref[1], "output bytes");
    if (!done) {
        vc_check(e.m_holding_output == (nq > 0) && int(e.m_holding_size) == (nq > 0 ? nq : nv) && int(e.m_padding_size) == pad, "next state");
        for (int i = 0; i < 4; ++i) { if (nq > 0) { if (i < nq) vc_check(e.m_hold_buffer[4 - nq + i] == q[i], "queued bytes"); } else if (i < nv) vc_check(int((unsigned char)(e.m_hold_buffer[i])) == v[i], "collected characters"); }
    }
}
VC_PROOF(round_trip) /*: loops=unroll bounded=3 T_bounded=7 time=400 T_time=3000 cost=9 */ {
    std::size_t n = vc::any_size(); vc_assume(n <= 7);
    char data[7];
    for (int i = 0; i < 7; ++i) data[i] = vc::any<char>();
    auto c = any_enc();
    char text[32], back[12];
    std::size_t nt = 99, nb = 99; bool ins = false;
    vc_assume(c.line_size == 0 || c.line_size >= 3);
    bool ok = base64::encode(core::Span<const char>(data, n), core::Span<char>(text, 32), nt, ins, c);
    vc_check(ok && nt == base64::encode_buffer_size(n, c), "encoded size");
    base64::DecodeConfig dc;
    dc.url_safe_variant = c.url_safe_variant;
    dc.allow_whitespace = c.line_size > 0;
    dc.padding = c.use_padding ? base64::DecodeConfig::require : base64::DecodeConfig::reject;
    vc_check(base64::decode(std::string_view(text, nt), core::Span<char>(back, 12), nb, ins, dc), "own output is accepted");
    vc_check(nb == n, "round trip size");
    for (std::size_t i = 0; i < 7; ++i) if (i < n) vc_check(back[i] == data[i], "round trip");
}
VC_PROOF(buffer_space) /*: loops=unroll bounded=12 bound=messages_of_at_most_4_bytes */ {
    // too small an output buffer is reported as such and never overrun
    std::size_t n = vc::any_size(); vc_assume(n <= 4);
    char data[4];
    for (int i = 0; i < 4; ++i) data[i] = vc::any<char>();
    auto c = any_enc();
    vc_assume(c.line_size == 0 || c.line_size >= 2);
    std::size_t m = vc::any_size(); vc_assume(m <= 12);
    char* buf = vc::array<char>(m);
    std::size_t nt = 99; bool ins = false;
    bool ok = base64::encode(core::Span<const char>(data, n), core::Span<char>(buf, m), nt, ins, c);
    std::size_t need = base64::encode_buffer_size(n, c);
    vc_check(ok == (m >= need) && (ok ? nt == need : ins), "buffer space");
}

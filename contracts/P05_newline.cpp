// Newline encoding and decoding (NL <-> CR LF).
#include <archon/core/newline_codec.hpp>
#include <archon/core/newline_codec.cpp>
#include "vc.hpp"
using namespace archon;
namespace nl = core::newline_codec;
using std::size_t;
// Memory safety, progress, and frame for all sizes.
VC_PROOF(decode_safe) /*: loops=inv */ {
    size_t n = vc::any_size(), m = vc::any_size(), i = vc::any_size(), j = vc::any_size(), co = vc::any_size(), cl = vc::any_size();
    char* d = vc::array<char>(n); char* b = vc::array<char>(m); vc_assume(i <= n && j <= m);
    bool eod = vc::any<bool>();
    size_t g = vc::any_size(); char old = g < m ? b[g] : 0; size_t h = vc::any_size(); char src = h < n ? d[h] : 0;
    size_t i0 = i, j0 = j;
    nl::decode({ d, n }, i, eod, { b, m }, j, co, cl);
    vc_check(i0 <= i && i <= n && j0 <= j && j <= m, "offsets stay in range");
    vc_check(j - j0 <= i - i0 && i - i0 <= 2 * (j - j0), "one or two characters are consumed per character produced");
    if (g < m && (g < j0 || g >= j)) vc_check(b[g] == old, "only the produced part of the buffer is written");
    if (h < n) vc_check(d[h] == src, "data is untouched");
    vc_check(i == n || j == m || (!eod && i == n - 1 && d[i] == '\r'), "stops only at the end of the data or buffer, or before a final CR");
}
VC_PROOF(encode_safe) /*: loops=inv */ {
    size_t n = vc::any_size(), m = vc::any_size(), i = vc::any_size(), j = vc::any_size();
    char* d = vc::array<char>(n); char* b = vc::array<char>(m); vc_assume(i <= n && j <= m);
    size_t g = vc::any_size(); char old = g < m ? b[g] : 0; size_t h = vc::any_size(); char src = h < n ? d[h] : 0;
    size_t i0 = i, j0 = j;
    nl::encode({ d, n }, i, { b, m }, j);
    vc_check(i0 <= i && i <= n && j0 <= j && j <= m, "offsets stay in range");
    vc_check(i - i0 <= j - j0 && j - j0 <= 2 * (i - i0), "one or two characters are produced per character consumed");
    if (g < m && (g < j0 || g >= j)) vc_check(b[g] == old, "only the produced part of the buffer is written");
    if (h < n) vc_check(d[h] == src, "data is untouched");
    vc_check(i == n || j == m || (j + 1 == m && d[i] == '\n'), "stops only at the end of the data or buffer, or before a newline that does not fit");
}
VC_PROOF(simul_safe) /*: loops=inv */ {
    size_t n = vc::any_size(), i = vc::any_size(), s = vc::any_size();
    char* d = vc::array<char>(n); vc_assume(i <= n && s <= std::numeric_limits<size_t>::max() / 2);
    size_t i0 = i;
    bool ok = nl::simul_decode({ d, n }, i, s);
    vc_check(i0 <= i && i <= n, "offset stays in range");
    vc_check(ok ? s <= i - i0 && i - i0 <= 2 * s : i == i0, "consumption fits the space, or nothing is consumed");
    if (!ok) vc_check(n - i0 < 2 * s, "space is left only if the data ran out");
    
}
// Exact outcome, from arbitrary offsets, for up to N remaining characters.
template<int N> struct Data {
    char* d; size_t n, i;
    Data() { n = vc::any_size(); i = vc::any_size(); vc_assume(i <= n && n - i <= N); d = vc::array<char>(n); }
};
struct Dec { char out[8]; size_t no = 0, ni = 0, clear = 0; };
static Dec ref_decode(const char* d, size_t n, bool eod, size_t space) {
    Dec r; for (char& c : r.out) c = 'x';
    for (int s = 0; s < 6; ++s) {
        if (r.ni == n || r.no == space) break;
        char c = d[r.ni];
        bool crlf = c == '\r' && r.ni + 1 < n && d[r.ni + 1] == '\n';
        if (c == '\r' && r.ni + 1 == n && !eod) break;
        r.out[r.no++] = crlf ? '\n' : c; r.ni += crlf ? 2 : 1;
        if (crlf) r.clear = r.no;
    }
    return r;
}
VC_PROOF(decode) /*: bounded=5 loops=unroll bound=any_offsets_with_at_most_5_remaining_characters */ {
    Data<5> a; char in[6]; for (int k = 0; k < 5; ++k) in[k] = size_t(k) < a.n - a.i ? a.d[a.i + k] : 0;
    char buf[16]; for (char& c : buf) c = 'x';
    size_t j = vc::any_size(), sp = vc::any_size(); vc_assume(j <= 2 && sp <= 6);
    bool eod = vc::any<bool>(); size_t co = vc::any_size(), cl = vc::any_size();
    Dec r = ref_decode(in, a.n - a.i, eod, sp);
    size_t i = a.i, j1 = j, c1 = cl;
    nl::decode({ a.d, a.n }, i, eod, { buf, j + sp }, j1, co, c1);
    vc_check(i == a.i + r.ni && j1 == j + r.no, "progress");
    vc_check(c1 == (r.clear == 0 ? cl : co + j + r.clear), "clear point follows the last decoded newline");
    for (size_t k = 0; k < 8; ++k) vc_check(buf[j + k] == r.out[k], "decoded text");
    size_t i2 = a.i;
    if (eod) {
        bool ok = nl::simul_decode({ a.d, a.n }, i2, sp);
        vc_check(ok == (r.no == sp) && i2 == (ok ? i : a.i), "simulation agrees with decoding");
    }
}
VC_PROOF(encode) /*: bounded=4 loops=unroll bound=any_offsets_with_at_most_4_remaining_characters */ {
    Data<4> a;
    char ref[8], buf[16]; for (char& c : ref) c = 'x'; for (char& c : buf) c = 'x';
    size_t j = vc::any_size(), sp = vc::any_size(); vc_assume(j <= 2 && sp <= 8);
    size_t ni = 0, no = 0;
    for (int s = 0; s < 4; ++s) {
        if (ni == a.n - a.i) break;
        char c = a.d[a.i + ni];
        if (sp - no < (c == '\n' ? 2 : 1)) break;
        if (c == '\n') { ref[no] = '\r'; ref[no + 1] = '\n'; no += 2; } else ref[no++] = c;
        ++ni;
    }
    size_t i = a.i, j1 = j;
    nl::encode({ a.d, a.n }, i, { buf, j + sp }, j1);
    vc_check(i == a.i + ni && j1 == j + no, "progress");
    for (size_t k = 0; k < 8; ++k) vc_check(buf[j + k] == ref[k], "encoded text");
}
// Decoding in two pieces, with input and output split anywhere, gives the same as decoding at once.
VC_PROOF(resume) /*: bounded=4 loops=unroll bound=at_most_4_characters_in_two_pieces */ {
    char in[4]; for (char& c : in) c = vc::any<char>();
    size_t n = vc::any_size(), n1 = vc::any_size(), m1 = vc::any_size(); vc_assume(n <= 4 && n1 <= n && m1 <= 4);
    char a[4] = { 'x', 'x', 'x', 'x' }, b[4] = { 'x', 'x', 'x', 'x' };
    size_t i = 0, j = 0, c = 99; nl::decode({ in, n }, i, true, { a, 4 }, j, 0, c);
    size_t i2 = 0, j2 = 0, c2 = 99;
    nl::decode({ in, n1 }, i2, false, { b, m1 }, j2, 0, c2);
    nl::decode({ in, n }, i2, true, { b, 4 }, j2, 0, c2);
    vc_check(i == n && i2 == n && j2 == j && c2 == c, "pieces add up");
    for (int k = 0; k < 4; ++k) vc_check(a[k] == b[k], "same text");
}
VC_PROOF(round_trip) /*: bounded=3 loops=unroll bound=at_most_3_characters */ {
    char in[3]; for (char& c : in) c = vc::any<char>();
    size_t n = vc::any_size(); vc_assume(n <= 3);
    char e[6], d[6]; size_t i = 0, j = 0;
    nl::encode({ in, n }, i, { e, 6 }, j);
    vc_check(i == n, "encoded completely");
    size_t k = 0, o = 0, c = 0;
    nl::decode({ e, j }, k, true, { d, 6 }, o, 0, c);
    // encoding CR NL gives CR CR LF, which decodes to CR NL again
    vc_check(k == j && o == n, "decoded completely");
    for (size_t x = 0; x < n; ++x) vc_check(d[x] == in[x], "round trip");
}

// Byte sources and sinks: buffering, rewinding, and reading until done, on top of any lower layer that keeps its contract.
#include <cstddef>
#include <cerrno>
#include <limits>
#include <string>
#include <system_error>
#include <sstream>
#include <filesystem>
#include <iomanip>
#include <locale>
#include <chrono>
#include <memory>
#include <functional>
#include <algorithm>
#include <iostream>
#define private public
#define protected public
#include <archon/core/source.hpp>
#include <archon/core/source.cpp>
#include <archon/core/rewindable_source.cpp>
#include <archon/core/file_source.cpp>
#include <archon/core/file_sink.cpp>
#undef private
#undef protected
#include "vc.hpp"
using namespace archon;
using std::size_t;
#ifdef VC_PROVE
namespace std { inline namespace _V2 { alignas(8) static char cat[8]; const error_category& system_category() noexcept { return reinterpret_cast<const error_category&>(cat); } } }
#endif
// One arbitrary outcome of a lower layer, in keeping with its contract; the request is recorded, and the bytes delivered are the
// arbitrary initial contents of `text`.
struct Low { int calls; bool reading; const char* p; size_t n; bool fail, keep; int err; size_t r; char* text; };
static Low low;
static void begin(size_t most) {
    low.calls = 0; low.fail = vc::any<bool>(); low.keep = vc::any<bool>(); low.err = vc::any<int>(); low.r = vc::any_size(); vc_assume(low.r <= most); low.text = vc::array<char>(low.r);
}
static bool deliver(core::Span<char> b, size_t& n, std::error_code& ec) {
    vc_check(low.calls == 0, "the lower layer is consulted at most once"); ++low.calls;
    low.p = b.data(); low.n = b.size();
    if (low.fail) { ec = std::error_code(low.err, std::system_category()); return false; }
    vc_assume(low.r <= b.size());
    if (low.r > 0) std::copy_n(low.text, low.r, b.data());
    n = low.r;
    return true;
}
bool core::File::try_read_some_a(core::Span<char> b, size_t& n, bool& interrupted, std::error_code& ec) noexcept { interrupted = false; return deliver(b, n, ec); }
bool core::File::try_write(core::StringSpan<char> d, size_t& n, std::error_code& ec) noexcept {
    vc_check(low.calls == 0, "the file is written at most once"); ++low.calls;
    low.p = d.data(); low.n = d.size();
    if (low.fail) { vc_assume(low.r <= low.n); n = low.r; ec = std::error_code(low.err, std::system_category()); return false; }
    n = low.n;
    return true;
}
void core::File::do_close() noexcept {}
struct Sub : core::Source { bool do_try_read_some(core::Span<char> b, size_t& n, std::error_code& ec) override { return deliver(b, n, ec); } };
static bool same(const std::error_code& ec, int v) { return ec.value() == v && ec.category() == std::system_category(); }
VC_PROOF(rewindable) {
    size_t cap = vc::any_size(), sz = vc::any_size(), off = vc::any_size(), m = vc::any_size();
    vc_assume(off <= sz && sz <= cap && cap <= (size_t(1) << 30)); begin(size_t(1) << 30);
    Sub sub; core::Buffer<char> buf(cap); 
    char* d = vc::array<char>(sz); if (sz > 0) std::copy_n(d, sz, buf.data());
    char* b = vc::array<char>(m); size_t g = vc::any_size(); char old = g < m ? b[g] : 0;
    core::RewindableSource s(sub, buf); s.m_offset = off; s.m_size = sz; s.m_released = vc::any<bool>();
    bool rel = s.m_released;
    int e0 = vc::any<int>(); std::error_code ec(e0, std::system_category()); size_t n0 = vc::any_size(), n = n0;
    bool ok = s.do_try_read_some({ b, m }, n, ec);
    size_t h = vc::any_size();
    if (off < sz) {
        vc_check(ok && low.calls == 0 && n == std::min(m, sz - off), "stored bytes are delivered first");
        if (g < n) vc_check(b[g] == d[off + g], "the stored bytes in order");
        else if (g < m) vc_check(b[g] == old, "nothing beyond them");
        vc_check(s.m_offset == off + n && s.m_size == sz, "position");
    }
    else if (rel) {
        vc_check(low.calls == 1 && low.p == b && low.n == m, "after release the bytes go directly to the buffer");
        vc_check(ok == !low.fail && n == (ok ? low.r : n0), "outcome of the underlying source");
        vc_check(s.m_offset == off && s.m_size == sz, "position");
    }
    else {
        vc_check(low.calls == 1 && low.n > 0 && low.p == buf.data() + sz && sz + low.n == buf.size(), "bytes are requested into the free part of the memory");
        vc_check(ok == !low.fail, "fails exactly when the underlying source fails");
        if (ok) {
            vc_check(n == std::min(m, low.r), "as many bytes as fit");
            if (g < n) vc_check(b[g] == low.text[g], "the bytes in order");
            else if (g < m) vc_check(b[g] == old, "nothing beyond them");
            vc_check(s.m_size == sz + low.r && s.m_offset == off + n, "all bytes are kept");
            if (h < low.r) vc_check(buf[sz + h] == low.text[h], "kept in order");
        }
        else vc_check(n == n0 && s.m_size == sz && s.m_offset == off, "nothing changes when the underlying source fails");
    }
    vc_check(low.calls == 1 && low.fail ? !ok && same(ec, low.err) : ok && same(ec, e0), "error code");
    if (h < sz) vc_check(buf[h] == d[h], "what was stored remains");
    vc_check(s.m_released == rel, "release");
    if (!rel) { size_t z = s.m_size; s.rewind(); vc_check(s.m_offset == 0 && s.m_size == z, "rewinding goes back to the first byte"); }
    size_t o = s.m_offset; s.release(); s.release(); vc_check(s.m_released && s.m_offset == o, "releasing keeps the position");
}
VC_PROOF(file_source) /*: loops=unroll */ {
    size_t cap = vc::any_size(), b0 = vc::any_size(), e0 = vc::any_size(), m = vc::any_size();
    vc_assume(cap > 0 && b0 <= e0 && e0 <= cap); begin(cap);
    char* mem = vc::array<char>(cap); char* b = vc::array<char>(m);
    size_t g = vc::any_size(); char old = g < m ? b[g] : 0; char want = g < e0 - b0 ? mem[b0 + g] : 0;
    core::File f; core::BufferedFileSource s(f, { mem, cap }); s.m_begin = b0; s.m_end = e0;
    int c0 = vc::any<int>(); std::error_code ec(c0, std::system_category()); size_t n0 = vc::any_size(), n = n0;
    bool ok = s.do_try_read_some({ b, m }, n, ec);
    size_t avail = e0 - b0;
    if (avail == 0) {
        vc_check(low.calls == 1 && low.p == mem && low.n == cap, "the whole buffer is refilled");
        vc_check(ok == !low.fail, "fails exactly when the file fails");
        if (ok) { avail = low.r; if (g < avail) want = low.text[g]; }
        else vc_check(same(ec, low.err) && n == n0 && s.m_begin == s.m_end, "nothing changes when the file fails");
    }
    else vc_check(low.calls == 0 && ok, "buffered bytes first");
    if (ok) {
        vc_check(n == std::min(avail, m) && s.m_end - s.m_begin == avail - n && s.m_begin <= s.m_end && s.m_end <= cap, "as many as fit; the rest stays");
        if (g < n) vc_check(b[g] == want, "bytes in order"); else if (g < m) vc_check(b[g] == old, "nothing beyond");
        if (g >= n && g < avail) vc_check(mem[s.m_begin + (g - n)] == want, "the rest in order");
        vc_check(same(ec, c0), "error code untouched");
    }
    f.m_handle = -1;
}
VC_PROOF(file_sink_flush) {
    size_t cap = vc::any_size(), b0 = vc::any_size(), e0 = vc::any_size();
    vc_assume(cap > 0 && b0 <= e0 && e0 <= cap); begin(cap);
    char* mem = vc::array<char>(cap);
    size_t g = vc::any_size(); char old = g < cap ? mem[g] : 0;
    core::File f; core::BufferedFileSink s(f, { mem, cap }); s.m_begin = b0; s.m_end = e0;
    int c0 = vc::any<int>(); std::error_code ec(c0, std::system_category());
    bool ok = s.try_flush(ec);
    vc_check(low.calls == 1 && low.n == e0 - b0 && (low.n == 0 || low.p == mem + b0), "exactly the buffered bytes are written");
    vc_check(ok == !low.fail && same(ec, ok ? c0 : low.err), "outcome");
    if (ok) vc_check(s.m_begin == s.m_end, "nothing is left"); else vc_check(s.m_begin == b0 + low.r && s.m_end == e0, "what was not written is left");
    if (g < cap) vc_check(mem[g] == old, "buffered bytes untouched");
}
// A write into an arbitrary state that needs at most one flush.
VC_PROOF(file_sink_write) /*: loops=unroll bounded=3 bound=at_most_one_flush */ {
    size_t cap = vc::any_size(), b0 = vc::any_size(), e0 = vc::any_size(), m = vc::any_size();
    vc_assume(cap > 0 && cap <= (size_t(1) << 30) && b0 <= e0 && e0 <= cap && m <= cap - e0 + cap); begin(cap);
    char* mem = vc::array<char>(cap); char* d = vc::array<char>(m);
    size_t g = vc::any_size(); char old = g < e0 ? mem[g] : 0; size_t h = vc::any_size();
    core::File f; core::BufferedFileSink s(f, { mem, cap }); s.m_begin = b0; s.m_end = e0;
    int c0 = vc::any<int>(); std::error_code ec(c0, std::system_category()); size_t n = vc::any_size();
    bool ok = s.do_try_write({ d, m }, n, ec);
    size_t room = cap - e0;
    if (m <= room) {
        vc_check(ok && n == m && low.calls == 0 && s.m_begin == b0 && s.m_end == e0 + m, "the bytes are buffered");
        if (g < e0) vc_check(mem[g] == old, "buffered bytes remain");
        if (h < m) vc_check(mem[e0 + h] == d[h], "the bytes are appended in order");
    }
    else {
        vc_check(low.calls == 1 && low.p == mem + b0 && low.n == cap - b0, "the full buffer is written once");
        vc_check(ok == !low.fail, "fails exactly when the file fails");
        if (ok) {
            vc_check(n == m && s.m_begin == 0 && s.m_end == m - room, "the remaining bytes are buffered");
            if (h >= room && h < m) vc_check(mem[h - room] == d[h], "in order");
        }
        else {
            vc_check(n == room && s.m_begin == b0 + low.r && s.m_end == cap, "the number of bytes accepted; what was not written is left");
            if (g < e0) vc_check(mem[g] == old, "buffered bytes remain");
            if (h < room) vc_check(mem[e0 + h] == d[h], "the accepted bytes are buffered");
        }
    }
    vc_check(same(ec, ok ? c0 : low.err), "error code");
}
// Reading until the buffer is full or the input ends, from any source.
struct Env { char* base; size_t size, done, limit; bool at_end, failed; int err; };
static Env env;
struct Any : core::Source {
    bool do_try_read_some(core::Span<char> b, size_t& n, std::error_code& ec) override {
        vc_check(!env.failed && !env.at_end, "no request after a failure or the end of input");
        vc_check(b.data() == env.base + env.done && b.size() == env.size - env.done, "the rest of the buffer is requested");
        if (vc::any<bool>()) { env.failed = true; env.err = vc::any<int>(); ec = std::error_code(env.err, std::system_category()); return false; }
        size_t r = vc::any_size(); vc_assume(r <= b.size());
        if (env.limit > 0) vc_assume(--env.limit > 0);
        if (r == 0) env.at_end = true;
        env.done += r; n = r;
        return true;
    }
};
template<int limit> static void all() {
    size_t m = vc::any_size(); Any s; env = { vc::array<char>(m), m, 0, limit, false, false, 0 };
    int c0 = vc::any<int>(); std::error_code ec(c0, std::system_category()); size_t n = vc::any_size();
    bool ok = s.try_read({ env.base, m }, n, ec);
    vc_check(ok == !env.failed && same(ec, ok ? c0 : env.err), "outcome");
    vc_check(n == env.done, "number of bytes placed in the buffer");
    if (ok) vc_check(n == m || env.at_end, "the buffer is full, or the end of input is reached");
}
VC_PROOF(source_calls) /*: loops=unroll bounded=6 bound=at_most_5_requests */ { all<6>(); }

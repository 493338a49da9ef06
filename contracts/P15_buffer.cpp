// core::Buffer: growth keeps the used part, size requests are honoured or refused.
#include <algorithm>
#include <array>
#include <bit>
#include <iterator>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#define private public
#include <archon/core/buffer.hpp>
#undef private
#include "vc.hpp"
using namespace archon;
using u32 = std::uint32_t;
constexpr std::size_t big = std::size_t(1) << 32;
static u32 seed[3];
struct Any {
    core::Buffer<u32> b;
    u32* mem; std::size_t size;
    Any() {
        if (vc::any<bool>()) {
            size = vc::any_size(); vc_assume(size <= big);
            mem = vc::heap_array<u32>(size);
            b.m_memory_owner.reset(mem);
        }
        else { for (u32& x : seed) x = vc::any<u32>(); mem = seed; size = vc::any<bool>() ? 3 : 0; if (size == 0 && vc::any<bool>()) mem = nullptr; }
        b.m_memory = core::Span<u32>(mem, size);
    }
};
static void valid(const core::Buffer<u32>& b) {
    if (b.m_memory_owner) vc_check(b.m_memory.data() == b.m_memory_owner.get(), "owned memory is in use");
    else vc_check(b.m_memory.size() == 0 || (b.m_memory.data() == seed && b.m_memory.size() <= 3), "seed memory is in use");
}
VC_PROOF(reserve) /*: loops=inv */ {
    Any a; std::size_t n = vc::any_size(), used = vc::any_size(), max = vc::any_size(); unsigned op = vc::any<unsigned>();
    vc_assume(used <= a.size && n <= 2 * big && op < 3);
    std::size_t k = vc::any_size(); u32 old = k < used ? a.mem[k] : 0;
    bool threw = false;
    std::size_t want = op == 0 ? n : op == 1 ? used + n : a.size + 1;
    try {
        if (op == 0) a.b.reserve(n, used, max);
        else if (op == 1) a.b.reserve_extra(n, used, max);
        else a.b.expand(used, max);
    }
    catch (std::length_error&) { threw = true; }
    vc_check(threw == (want > a.size && want > max), "request is refused exactly when it exceeds the maximum");
    if (threw || want <= a.size) vc_check(a.b.size() == a.size && a.b.data() == a.mem, "buffer is left unchanged");
    else vc_check(a.b.size() >= want && a.b.size() <= max, "new size");
    valid(a.b);
    if (k < used) vc_check(a.b[k] == old, "used part is kept");
}
VC_PROOF(append) /*: loops=inv */ {
    Any a; std::size_t n = vc::any_size(), off = vc::any_size(); vc_assume(n <= big && off <= a.size); bool fill = vc::any<bool>();
    u32 x = vc::any<u32>(); u32* p = vc::array<u32>(n);
    std::size_t k = vc::any_size(), o = off; u32 old = k < off ? a.mem[k] : fill ? x : k - off < n ? p[k - off] : 0;
    if (fill) a.b.append_a(x, o, n); else a.b.append(core::Span<const u32>(p, n), o);
    vc_check(o == off + n && a.b.size() >= o, "offset"); valid(a.b);
    if (k < o) vc_check(a.b[k] == old, "contents");
}
static void prepend(bool fill) {
    Any a; std::size_t n = vc::any_size(), off = vc::any_size(); vc_assume(n <= big && off <= a.size);
    u32 x = vc::any<u32>(); u32* p = vc::array<u32>(n);
    // k counts from the end of the buffer
    std::size_t k = vc::any_size(), o = off, used = a.size - off;
    u32 old = k < used ? a.mem[a.size - 1 - k] : fill ? x : k - used < n ? p[n - 1 - (k - used)] : 0;
    if (fill) a.b.prepend_a(x, o, n); else a.b.prepend(core::Span<const u32>(p, n), o);
    vc_check(o <= a.b.size() && a.b.size() - o == used + n, "offset"); valid(a.b);
    if (k < used + n) vc_check(a.b[a.b.size() - 1 - k] == old, "contents");
}
VC_PROOF(prepend_fill) /*: loops=inv */ { prepend(true); }
VC_PROOF(prepend_copy) /*: loops=inv */ { prepend(false); }
VC_PROOF(assign) /*: loops=inv */ {
    Any a; std::size_t n = vc::any_size(); vc_assume(n <= big); bool fill = vc::any<bool>();
    u32 x = vc::any<u32>(); u32* p = vc::array<u32>(n);
    std::size_t k = vc::any_size(); u32 old = fill ? x : k < n ? p[k] : 0;
    if (fill) a.b.assign_a(x, n); else a.b.assign(core::Span<const u32>(p, n));
    vc_check(a.b.size() >= n, "size"); valid(a.b);
    if (k < n) vc_check(a.b[k] == old, "contents");
}
VC_PROOF(limit) /*: loops=inv */ {
    Any a; std::size_t used = vc::any_size(), n = vc::any_size(); vc_assume(used > 0 && used <= a.size);
    bool threw = false;
    vc_assume(n >= std::size_t(-1) - used + 1);
    try { a.b.reserve_extra(n, used); } catch (std::length_error&) { threw = true; }
    vc_check(threw && a.b.size() == a.size && a.b.data() == a.mem, "overflowing request is refused"); valid(a.b);
}
VC_PROOF(construct) /*: loops=inv */ {
    std::size_t n = vc::any_size(), m = vc::any_size(); vc_assume(n <= big && m <= big); u32* p = vc::array<u32>(n); u32* s = vc::array<u32>(m);
    bool seeded = vc::any<bool>();
    std::size_t k = vc::any_size(); u32 old = k < n ? p[k] : 0;
    core::Buffer<u32> b(seeded ? core::Span<u32>(s, m) : core::Span<u32>(), core::BufferDataTag(), core::Span<const u32>(p, n));
    vc_check(b.size() == n, "size");
    if (seeded && n <= m) vc_check(b.data() == s, "seed memory is used when it suffices");
    bool in = true; u32 got = 0;
    try { got = b.at(k); } catch (std::out_of_range&) { in = false; }
    vc_check(in == (k < n) && (!in || got == old), "checked access");
    core::Buffer<u32> c(std::move(b));
    vc_check(b.size() == 0 && c.size() == n, "move");
    if (k < n) vc_check(c[k] == old, "moved contents");
}

// Pixel geometry: positions, sizes and boxes, and access to pixels through trays and blocks.
#include <algorithm>
#include <array>
#include <concepts>
#include <cstddef>
#include <iterator>
#include <limits>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <archon/image/block.hpp>
#include <archon/image/tray.hpp>
#include <archon/image/iter.hpp>
#include "vc.hpp"
using namespace archon;
using image::Box; using image::Pos; using image::Size;
using i64 = std::int64_t;
constexpr i64 lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
static bool in(i64 v) { return v >= lo && v <= hi; }
static Pos pos() { int x = vc::any<int>(), y = vc::any<int>(); return { x, y }; }
static Size siz() { int x = vc::any<int>(), y = vc::any<int>(); return { x, y }; }
static Size vsiz() { Size s = siz(); vc_assume(s.width >= 0 && s.height >= 0); return s; }
static Box box() { Pos p = pos(); return { p, vsiz() }; }
static bool has(const Box& b, i64 x, i64 y) {
    return x >= b.pos.x && x < i64(b.pos.x) + b.size.width && y >= b.pos.y && y < i64(b.pos.y) + b.size.height;
}
// the mathematical intersection
struct Sect { i64 l, r, t, b; bool nonempty() const { return l < r && t < b; } };
static Sect sect(const Box& a, const Box& b) {
    return { std::max<i64>(a.pos.x, b.pos.x), std::min(i64(a.pos.x) + a.size.width, i64(b.pos.x) + b.size.width),
             std::max<i64>(a.pos.y, b.pos.y), std::min(i64(a.pos.y) + a.size.height, i64(b.pos.y) + b.size.height) };
}
VC_PROOF(box_clip) {
    Box a = box(), b = box(), c = b; i64 x = vc::any<i64>(), y = vc::any<i64>();
    Sect s = sect(a, b);
    bool r = a.clip(c);
    vc_check(r == s.nonempty(), "clipping succeeds exactly when a pixel is shared");
    if (r) {
        vc_check(c.pos.x == s.l && c.pos.y == s.t, "position of intersection");
        vc_check(c.size.width == s.r - s.l && c.size.height == s.b - s.t, "size of intersection");
        vc_check(has(c, x, y) == (has(a, x, y) && has(b, x, y)), "pixels of intersection");
    }
    else {
        vc_check(c.pos.x == b.pos.x && c.pos.y == b.pos.y && c.size.width == b.size.width && c.size.height == b.size.height, "unchanged");
        vc_check(!(has(a, x, y) && has(b, x, y)), "no shared pixel");
    }
}
VC_PROOF(box_intersects) {
    Box a = box(), b = box();
    vc_check(a.intersects(b) == sect(a, b).nonempty(), "intersects exactly when a pixel is shared");
}
VC_PROOF(box_contains) {
    Box a = box(), b = box();
    bool e = b.pos.x >= a.pos.x && i64(b.pos.x) + b.size.width <= i64(a.pos.x) + a.size.width &&
             b.pos.y >= a.pos.y && i64(b.pos.y) + b.size.height <= i64(a.pos.y) + a.size.height;
    vc_check(a.contains(b) == e, "contains exactly when the edges do not go beyond");
    vc_check(b.contained_in(a) == e, "contained_in");
}
VC_PROOF(box_contains_pixel) {
    Box a = box(); Pos p = pos();
    vc_check(a.contains_pixel_at(p) == has(a, p.x, p.y), "contains pixel");
}
VC_PROOF(box_valid) {
    Pos p = pos(); Size s = siz(); Box a(p, s);
    vc_check(a.is_valid() == (s.width >= 0 && s.height >= 0 && in(i64(p.x) + s.width) && in(i64(p.y) + s.height)), "valid");
    vc_check(a.is_empty() == (s.width == 0 || s.height == 0), "empty");
    Box c(s);
    vc_check(c.pos.x == 0 && c.pos.y == 0 && c.size.width == s.width && c.size.height == s.height, "box from size");
}
VC_PROOF(box_compare) {
    Pos p = pos(), q = pos(); Size s = siz(), t = siz(); Box a(p, s), b(q, t);
    int c = p.x != q.x ? (p.x < q.x ? -1 : 1) : p.y != q.y ? (p.y < q.y ? -1 : 1) :
            s.width != t.width ? (s.width < t.width ? -1 : 1) : s.height != t.height ? (s.height < t.height ? -1 : 1) : 0;
    vc_check((a == b) == (c == 0) && (a != b) == (c != 0), "equality of boxes");
    vc_check((a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0), "order of boxes");
    Box d = splice(a, b);
    vc_check(d.pos.x == p.x && d.pos.y == q.y && d.size.width == s.width && d.size.height == t.height, "splice");
}
VC_PROOF(pos_compare) {
    Pos p = pos(), q = pos();
    int c = p.x != q.x ? (p.x < q.x ? -1 : 1) : p.y != q.y ? (p.y < q.y ? -1 : 1) : 0;
    vc_check((p == q) == (c == 0) && (p != q) == (c != 0), "equality of positions");
    vc_check((p < q) == (c < 0) && (p <= q) == (c <= 0) && (p > q) == (c > 0) && (p >= q) == (c >= 0), "order of positions");
    vc_check(p.is_zero() == (p.x == 0 && p.y == 0), "zero position");
    vc_check(Pos().is_zero(), "default position");
    vc_check(p.proj_x() == Pos(p.x, 0) && p.proj_y() == Pos(0, p.y), "projections");
    vc_check(p.with_x(q.x) == Pos(q.x, p.y) && p.with_y(q.y) == Pos(p.x, q.y), "replaced coordinate");
    vc_check(splice(p, q) == Pos(p.x, q.y), "splice");
}
VC_PROOF(pos_arith) {
    Pos p = pos(), q = pos(); Size s = siz();
    bool add = in(i64(p.x) + s.width) && in(i64(p.y) + s.height), sub = in(i64(p.x) - s.width) && in(i64(p.y) - s.height);
    vc_check(p.can_add(s) == add, "can add"); vc_check(p.can_sub(s) == sub, "can subtract");
    if (add) {
        Pos r = p + s, t = p; Pos& u = (t += s);
        vc_check(r.x == i64(p.x) + s.width && r.y == i64(p.y) + s.height && t.x == r.x && t.y == r.y && &u == &t, "sum");
    }
    if (sub) {
        Pos r = p - s, t = p; Pos& u = (t -= s);
        vc_check(r.x == i64(p.x) - s.width && r.y == i64(p.y) - s.height && t.x == r.x && t.y == r.y && &u == &t, "difference");
    }
    if (in(i64(p.x) - q.x) && in(i64(p.y) - q.y)) {
        Size d = p - q;
        vc_check(d.width == i64(p.x) - q.x && d.height == i64(p.y) - q.y, "difference of positions");
    }
}
VC_PROOF(size_preds) {
    Size s = siz(), t = siz();
    int c = s.width != t.width ? (s.width < t.width ? -1 : 1) : s.height != t.height ? (s.height < t.height ? -1 : 1) : 0;
    vc_check((s == t) == (c == 0) && (s != t) == (c != 0), "equality of sizes");
    vc_check((s < t) == (c < 0) && (s <= t) == (c <= 0) && (s > t) == (c > 0) && (s >= t) == (c >= 0), "order of sizes");
    vc_check(s.is_valid() == (s.width >= 0 && s.height >= 0) && s.is_zero() == (s.width == 0 && s.height == 0) &&
             s.is_empty() == (s.width == 0 || s.height == 0), "valid, zero, empty");
    bool e = t.width <= s.width && t.height <= s.height;
    vc_check(s.contains(t) == e && t.contained_in(s) == e, "contains");
    Size m = min(s, t), M = max(s, t);
    vc_check(m.width == (s.width < t.width ? s.width : t.width) && m.height == (s.height < t.height ? s.height : t.height), "minimum");
    vc_check(M.width == (s.width > t.width ? s.width : t.width) && M.height == (s.height > t.height ? s.height : t.height), "maximum");
    vc_check(s.proj_x() == Size(s.width, 0) && s.proj_y() == Size(0, s.height) && s.with_width(t.width) == Size(t.width, s.height) &&
             s.with_height(t.height) == Size(s.width, t.height) && splice(s, t) == Size(s.width, t.height), "projections");
    vc_check(Size(t.width) == Size(t.width, t.width), "square");
}
VC_PROOF(size_arith) {
    Size s = siz(), t = siz(); int f = vc::any<int>();
    if (in(i64(s.width) + t.width) && in(i64(s.height) + t.height)) {
        Size r = s + t, u = s; u += t;
        vc_check(r.width == i64(s.width) + t.width && r.height == i64(s.height) + t.height && u == r, "sum");
    }
    if (in(i64(s.width) - t.width) && in(i64(s.height) - t.height)) {
        Size r = s - t, u = s; u -= t;
        vc_check(r.width == i64(s.width) - t.width && r.height == i64(s.height) - t.height && u == r, "difference");
    }
}
VC_PROOF(size_scale) {
    Size s = siz(); int f = vc::any<int>();
    if (in(i64(s.width) * f) && in(i64(s.height) * f)) {
        Size r = s * f, q = f * s;
        vc_check(r.width == i64(s.width) * f && r.height == i64(s.height) * f && q == r, "scaled");
    }
}
VC_PROOF(size_div) {
    Size s = vsiz(); int f = vc::any<int>(); vc_assume(f > 0);
    Size r = s / f;
    vc_check(r.width == s.width / f && r.height == s.height / f, "quotient rounded down");
}
// Trays: the address computed for a pixel is base + x * horz_stride + y * vert_stride, nothing overflows.
constexpr i64 big = i64(1) << 40;
VC_PROOF(iter_move) {
    std::uint16_t* mem = vc::array<std::uint16_t>(vc::any_size());
    std::ptrdiff_t h = vc::any<i64>(), v = vc::any<i64>(); vc_assume(h > 0 && h <= (i64(1) << 20) && v > 0 && v <= (i64(1) << 20));
    image::Iter<std::uint16_t> i { mem, h, v };
    int x = vc::any<int>(), y = vc::any<int>(); vc_assume(x > -(1 << 20) && x < (1 << 20) && y > -(1 << 20) && y < (1 << 20));
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(mem), e = 2 * (x * h + y * v);
    vc_check(reinterpret_cast<std::uintptr_t>(i(x, y)) == a + e && reinterpret_cast<std::uintptr_t>(i(Pos(x, y))) == a + e, "address of pixel");
    auto j = i + Size(x, y), k = i - Size(x, y), l = i; l += Size(x, y); auto m = i; m -= Size(x, y);
    vc_check(reinterpret_cast<std::uintptr_t>(j.base) == a + e && j.horz_stride == h && j.vert_stride == v, "moved forward");
    vc_check(reinterpret_cast<std::uintptr_t>(k.base) == a - e && k.horz_stride == h && k.vert_stride == v, "moved backward");
    vc_check(l.base == j.base && m.base == k.base && l.horz_stride == h && m.vert_stride == v, "in place");
    image::Tray<std::uint16_t> t { i, { 10, 20 } };
    vc_check(reinterpret_cast<std::uintptr_t>(t(x, y)) == a + e && t(Pos(x, y)) == t(x, y), "tray pixel");
    int ox = vc::any<int>(), oy = vc::any<int>(); vc_assume(ox > -(1 << 20) && ox < (1 << 20) && oy > -(1 << 20) && oy < (1 << 20));
    vc_assume(x - ox > -(1 << 20) && x - ox < (1 << 20) && y - oy > -(1 << 20) && y - oy < (1 << 20));
    Size s = siz();
    auto u = t.subtray(Box({ x, y }, s), { ox, oy });
    vc_check(reinterpret_cast<std::uintptr_t>(u.iter.base) == a + 2 * ((x - ox) * h + (y - oy) * v) && u.size == s &&
             u.iter.horz_stride == h && u.iter.vert_stride == v, "subtray");
}
// A grid of pixels in memory
struct Grid {
    Size size; int n; std::ptrdiff_t h, v; std::size_t cells; std::uint8_t* mem; image::Iter<std::uint8_t> it;
    Grid(int W, int H, int N) {
        int w = vc::any<int>(), hh = vc::any<int>(); vc_assume(w >= 0 && w <= W && hh >= 0 && hh <= H);
        size = { w, hh }; n = N;
        int gap = vc::any<std::uint8_t>(); vc_assume(gap <= 1);
        if (vc::any<bool>()) { h = N + gap; v = h * W + gap; } else { v = N + gap; h = v * H + gap; }
        cells = std::size_t(h * W + v * H + N);
        mem = vc::array<std::uint8_t>(cells);
        it = { mem, h, v };
    }
    std::size_t at(int x, int y, int k) const { return std::size_t(x * h + y * v + k); }
};
// Whether cell i of the grid is component k of a pixel (x, y)
static bool locate(const Grid& g, std::size_t i, int W, int H, int& x, int& y, int& k) {
    for (int b = 0; b < H; ++b) for (int a = 0; a < W; ++a) for (int c = 0; c < g.n; ++c)
        if (g.at(a, b, c) == i) { x = a; y = b; k = c; return true; }
    return false;
}
template<int N> static void copy_to(int W, int H) {
    Grid a(W, H, N), b(W, H, N);
    std::size_t i = vc::any_size(); vc_assume(i < b.cells);
    int x, y, k; bool pix = locate(b, i, W, H, x, y, k);
    std::uint8_t old = b.mem[i], want = pix && x < a.size.width && y < a.size.height ? a.mem[a.at(x, y, k)] : old;
    if (vc::any<bool>()) a.it.copy_to(b.it, a.size, N);
    else if (vc::any<bool>()) image::Tray<std::uint8_t>{ a.it, a.size }.copy_to(b.it, N);
    else image::Tray<std::uint8_t>{ b.it, a.size }.copy_from(a.it, N);
    vc_check(b.mem[i] == want, "copied pixels, nothing else");
}
VC_PROOF(copy_1) /*: bounded=3 split=1 bound=at_most_3_by_3_pixels */ { copy_to<1>(3, 3); }
VC_PROOF(copy_3) /*: bounded=3 split=1 bound=at_most_3_by_2_pixels */ { copy_to<3>(3, 2); }
template<int N> static void fill(int W, int H) {
    Grid g(W, H, N); Pos p = pos(); vc_assume(p.x >= 0 && p.y >= 0);
    Size s = vsiz(); vc_assume(p.x <= W && p.y <= H && s.width <= W - p.x && s.height <= H - p.y);
    std::uint8_t px[N]; for (int j = 0; j < N; ++j) px[j] = vc::any<std::uint8_t>();
    std::size_t i = vc::any_size(); vc_assume(i < g.cells);
    int x, y, k; bool pix = locate(g, i, W, H, x, y, k);
    std::uint8_t old = g.mem[i], want = old;
    if (pix && has({ p, s }, x, y)) want = px[k];
    if (vc::any<bool>()) g.it.fill(px, { p, s }, N);
    else image::Tray<std::uint8_t>{ g.it, g.size }.subtray({ p, s }).fill(px, N);
    vc_check(g.mem[i] == want, "filled pixels, nothing else");
}
VC_PROOF(fill_1) /*: bounded=3 split=1 bound=at_most_3_by_2_pixels */ { fill<1>(3, 2); }
VC_PROOF(fill_2) /*: bounded=3 split=1 bound=at_most_3_by_3_pixels */ { fill<2>(3, 3); }
// Repetition: dir 0 left, 1 right, 2 up, 3 down, 4 all around
template<int D, int N> static void repeat(int W, int H) {
    Grid g(W, H, N); Pos p = pos(); Size s = vsiz();
    vc_assume(p.x >= 0 && p.y >= 0 && p.x <= W && p.y <= H && s.width <= W - p.x && s.height <= H - p.y);
    Box area { p, s };
    if constexpr (D == 4) {
        Pos q = pos(); Size t = vsiz(); vc_assume(q.x >= 0 && q.y >= 0 && q.x <= W && q.y <= H && t.width <= W - q.x && t.height <= H - q.y);
        area = { q, t };
        vc_assume(area.contains({ p, s }) && s.width > 0 && s.height > 0);
    }
    int d = 0;
    if constexpr (D < 4) {
        d = vc::any<int>(); vc_assume(d >= 0);
        if (D < 2) vc_assume(s.width > 0); else vc_assume(s.height > 0);
        if (D == 0) { vc_assume(d <= p.x); area = { Pos(p.x - d, p.y), Size(s.width + d, s.height) }; }
        if (D == 1) { vc_assume(d <= W - p.x - s.width); area = { p, Size(s.width + d, s.height) }; }
        if (D == 2) { vc_assume(d <= p.y); area = { Pos(p.x, p.y - d), Size(s.width, s.height + d) }; }
        if (D == 3) { vc_assume(d <= H - p.y - s.height); area = { p, Size(s.width, s.height + d) }; }
    }
    std::size_t i = vc::any_size(); vc_assume(i < g.cells);
    int x, y, k; bool pix = locate(g, i, W, H, x, y, k);
    std::uint8_t old = g.mem[i], want = old;
    if (pix && has(area, x, y)) {
        int u = x, v = y;
        for (int j = 0; j < W; ++j) { if (u < p.x) u += s.width; if (u >= p.x + s.width) u -= s.width; }
        for (int j = 0; j < H; ++j) { if (v < p.y) v += s.height; if (v >= p.y + s.height) v -= s.height; }
        want = g.mem[g.at(u, v, k)];
    }
    Box b { p, s };
    if (D == 0) g.it.repeat_left(b, d, N);
    if (D == 1) g.it.repeat_right(b, d, N);
    if (D == 2) g.it.repeat_up(b, d, N);
    if (D == 3) g.it.repeat_down(b, d, N);
    if (D == 4) { if (area.pos == Pos() && vc::any<bool>()) image::Tray<std::uint8_t>{ g.it, area.size }.repeat(b, N); else g.it.repeat(b, area, N); }
    vc_check(g.mem[i] == want, "pattern repeated, nothing else");
}
VC_PROOF(repeat_left) /*: bounded=4 split=1 bound=grids_of_at_most_4_by_1_pixels */ { repeat<0, 1>(4, 1); }
VC_PROOF(repeat_right) /*: bounded=4 split=1 bound=grids_of_at_most_4_by_1_pixels */ { repeat<1, 1>(4, 1); }
VC_PROOF(repeat_up) /*: bounded=4 split=1 bound=grids_of_at_most_1_by_4_pixels */ { repeat<2, 1>(1, 4); }
VC_PROOF(repeat_down) /*: bounded=4 split=1 bound=grids_of_at_most_1_by_4_pixels */ { repeat<3, 1>(1, 4); }
VC_PROOF(repeat_around) /*: cost=9 bounded=3 split=1 bound=grids_of_at_most_3_by_2_pixels */ { repeat<4, 1>(3, 2); }
// Blocks: the buffer size is exact; the tray covers the buffer
using BlockT = image::PixelBlock<image::RGB_8>;
static bool fits(Size s, i64& n) {
    if (s.width < 0 || s.height < 0) return false;
    __int128 v = __int128(s.width) * s.height * 3; n = i64(v);
    return v <= std::numeric_limits<std::ptrdiff_t>::max();
}
using CT = BlockT::comp_type;
VC_PROOF(block_span) {
    Size s = vsiz(); std::size_t n = vc::any_size(); vc_assume(n <= std::size_t(big)); CT* mem = vc::array<CT>(n);
    i64 need; bool ok = fits(s, need) && need <= i64(n), r = true;
    try {
        BlockT b(s, core::Span<CT>(mem, n));
        vc_check(b.size() == s && b.buffer().data() == mem && b.buffer().size() == n, "block refers to buffer");
        auto t = b.tray();
        vc_check(t.iter.base == mem && t.iter.horz_stride == 3 && t.iter.vert_stride == 3 * i64(s.width) && t.size == s, "tray");
        Pos p = pos(); 
        if (p.x >= 0 && p.x < s.width && p.y >= 0 && p.y < s.height) {
            auto px = b.get_pixel(p);
            std::size_t i = 3 * (std::size_t(p.y) * s.width + p.x);
            vc_check(px[0] == mem[i] && px[1] == mem[i + 1] && px[2] == mem[i + 2], "pixel");
        }
    }
    catch (...) { r = false; }
    vc_check(r == ok, "accepted exactly when the buffer is large enough");
}
VC_PROOF(block_own) {
    Size s = vsiz(); vc_assume(s.width <= (1 << 18) && s.height <= (1 << 18));
    BlockT b(s);
    vc_check(b.size() == s && i64(b.buffer().size()) == 3 * i64(s.width) * s.height, "buffer size");
    auto t = b.tray();
    vc_check(t.iter.base == b.buffer().data() && t.iter.horz_stride == 3 && t.iter.vert_stride == 3 * i64(s.width) && t.size == s, "tray");
}

// Packing of rectangles into bins.
#include <algorithm>
#include <cstddef>
#include <limits>
#include <stack>
#include <vector>
#define private public
#include <archon/util/rectangle_packer.hpp>
#undef private
#include "vc.hpp"
using namespace archon;
using std::size_t; using vc::i128; using vc::u128;
template<class T, int N> struct State {
    T s, m, w[N > 0 ? N : 1], h[N > 0 ? N : 1]; util::RectanglePacker<T> p;
    State(): s(vc::any<T>()), m(vc::any<T>()), p(s, m) {
        vc_assume(s >= 0 && m >= 0);
        p.m_rects.reserve(4); p.m_order.reserve(4); p.m_bins.reserve(4); p.m_nodes.reserve(16); p.m_stack.reserve(8);
        for (int i = 0; i < N; ++i) { w[i] = vc::any<T>(); h[i] = vc::any<T>(); vc_assume(w[i] >= 0 && h[i] >= 0); p.add_rect(w[i], h[i]); }
    }
    State(T s, T m, const T* ww, const T* hh): s(s), m(m), p(s, m) { for (int i = 0; i < N; ++i) { w[i] = ww[i]; h[i] = hh[i]; p.add_rect(w[i], h[i]); } }
    void check(bool ok, T bw, T bh, size_t mb) {
        bool room = m <= bw && m <= bw - m && m <= bh && m <= bh - m, fit = room;
        for (int i = 0; i < N; ++i) if (room && (w[i] > bw - m - m || h[i] > bh - m - m)) fit = false;
        if (!fit || (N > 0 && mb == 0)) vc_check(!ok, "impossible packing is refused");
        else if (mb >= size_t(N) || N < 2) vc_check(ok, "packing succeeds with a bin per rectangle");
        if (!ok) return;
        size_t n = p.get_num_bins();
        vc_check(n <= mb && n <= size_t(N) && (N == 0 || n > 0), "number of bins");
        T x[N > 0 ? N : 1], y[N > 0 ? N : 1]; size_t b[N > 0 ? N : 1];
        for (int i = 0; i < N; ++i) {
            p.get_rect_pos(i, b[i], x[i], y[i]);
            vc_check(b[i] < n, "bin index");
            vc_check(x[i] >= m && y[i] >= m && x[i] <= bw - m && y[i] <= bh - m && w[i] <= bw - m - x[i] && h[i] <= bh - m - y[i], "rectangle lies inside the margins of the bin");
            for (int j = 0; j < i; ++j) if (b[i] == b[j])
                vc_check(x[j] - (x[i] + w[i]) >= s || x[i] - (x[j] + w[j]) >= s || y[j] - (y[i] + h[i]) >= s || y[i] - (y[j] + h[j]) >= s, "rectangles are apart by the spacing");
        }
        for (size_t k = 0; k < size_t(N); ++k) if (k < n) {
            T mx = 0, my = 0;
            for (int i = 0; i < N; ++i) if (b[i] == k) { mx = std::max(mx, T(x[i] + w[i])); my = std::max(my, T(y[i] + h[i])); }
            vc_check(p.get_utilized_width(k) == mx + m && p.get_utilized_height(k) == my + m, "utilized size");
        }
    }
};
template<class T, int N> static void pack(int mbmax) {
    State<T, N> t; T bw = vc::any<T>(), bh = vc::any<T>(); size_t mb = vc::any_size(); vc_assume(mb <= size_t(mbmax));
    bool ok = t.p.pack(bw, bh, mb);
    t.check(ok, bw, bh, mb);
}
//: proof pack_ loops=unroll bounded=1 bound=at_most_1_rectangle split=1 core=1 time=400
VC_PROOF(pack_0) { pack<short, 0>(2); }
VC_PROOF(pack_1) { pack<short, 1>(3); }
// Enumeration: all small rectangles, bins, spacings and margins.
template<class T, int N> static void all(int maxsize, int maxgap, int maxbin, int maxbins) {
    T w[N], h[N]; int total = 1; for (int i = 0; i < 2 * N; ++i) total *= maxsize + 1;
    for (int s = 0; s <= maxgap; ++s) for (int m = 0; m <= maxgap; ++m) for (int c = 0; c < total; ++c) {
        int k = c; for (int i = 0; i < N; ++i) { w[i] = T(k % (maxsize + 1)); k /= maxsize + 1; h[i] = T(k % (maxsize + 1)); k /= maxsize + 1; }
        State<T, N> t(T(s), T(m), w, h);
        for (int bw = N; bw <= maxbin; ++bw) for (int bh = 1; bh <= maxbin; bh += N < 3 ? 1 : 2) for (int mb = 1; mb <= maxbins; ++mb) t.check(t.p.pack(T(bw), T(bh), size_t(mb)), T(bw), T(bh), size_t(mb));
    }
}
VC_PROOF(all_2) /*: native=1 bound=2_rectangles_of_sides_up_to_3_in_bins_of_sides_up_to_8 */ { all<int, 2>(3, 2, 8, 3); all<int, 1>(6, 3, 10, 2); }
VC_PROOF(all_3) /*: native=1 bound=3_rectangles_of_sides_up_to_2_in_bins_of_sides_up_to_7 */ { all<int, 3>(2, 1, 7, 2); }
// Many rectangles of mixed sizes.
template<class T, int N> static void mixed(unsigned seed, long unit) {
    auto rnd = [&](unsigned n) { seed = seed * 1664525u + 1013904223u; return (seed >> 8) % n; };
    for (int it = 0; it < 400; ++it) {
        T w[N], h[N], s = T(rnd(3) * unit / 4), m = T(rnd(3) * unit / 3);
        for (int i = 0; i < N; ++i) { w[i] = T(rnd(9) * unit); h[i] = T(rnd(9) * unit); if (rnd(4) == 0) w[i] = T(w[i] + rnd(3)); }
        State<T, N> t(s, m, w, h);
        T bw = T((8 + rnd(20)) * unit), bh = rnd(2) ? std::numeric_limits<T>::max() : T((8 + rnd(20)) * unit);
        size_t mb = 1 + rnd(4);
        t.check(t.p.pack(bw, bh, mb), bw, bh, mb);
        if (rnd(2)) { bw = t.p.suggest_bin_width(); long mx = 0; for (T x : w) mx = std::max(mx, long(x)); vc_check(long(bw) >= std::min(mx + 2L * m, long(std::numeric_limits<T>::max())), "suggested width has room for every rectangle"); t.check(t.p.pack(bw), bw, std::numeric_limits<T>::max(), 1); }
    }
}
VC_PROOF(mixed) /*: native=1 bound=1200_sets_of_up_to_40_rectangles */ { mixed<int, 5>(1, 3); mixed<int, 12>(2, 40000000); mixed<long, 40>(3, 1000); mixed<short, 9>(4, 700); mixed<int, 40>(5, 50000000); }
template<class T, int N> static void again() {
    State<T, N> t; T bw = vc::any<T>(), bh = vc::any<T>(); size_t mb = vc::any_size(); vc_assume(mb <= 1);
    t.p.pack(bw, bh, mb);
    bw = vc::any<T>(), bh = vc::any<T>(); mb = vc::any_size(); vc_assume(mb <= 2);
    if (vc::any<bool>()) { t.p.reset(); for (int i = 0; i < N; ++i) t.p.add_rect(t.w[i], t.h[i]); }
    bool ok = t.p.pack(bw, bh, mb);
    t.check(ok, bw, bh, mb);
}
VC_PROOF(pack_again) { again<short, 1>(); }
template<class T, int N> static void suggest() {
    State<T, N> t;
    T r = t.p.suggest_bin_width();
    long mn = 0; for (int i = 0; i < N; ++i) mn = std::max(mn, long(t.w[i]));
    vc_check(long(r) >= std::min(mn + 2L * t.m, long(std::numeric_limits<T>::max())), "suggested width has room for the widest rectangle and the margins");
}
//: proof suggest_ loops=inv bounded=1 bound=no_rectangles time=300
VC_PROOF(suggest_0) { suggest<int, 0>(); }
// The suggested width is that of a square with the total area, including spacing, but at least that of the widest rectangle.
template<class T> static void suggested(long unit, int n) {
    for (long w : { 0L, 1L, 3L, 10L }) for (long h : { 0L, 1L, 7L, 10L }) for (long s : { 0L, 1L, 5L }) for (long m : { 0L, 2L }) {
        T ts = T(s), tm = T(m); util::RectanglePacker<T> p(ts, tm);
        u128 area = 0; long mx = 0;
        for (int i = 0; i < n; ++i) { long ww = std::min(w * unit + i, long(std::numeric_limits<T>::max())), hh = std::min(h * unit, long(std::numeric_limits<T>::max())); p.add_rect(T(ww), T(hh)); area += u128(ww + u128(s)) * (hh + u128(s)); mx = std::max(mx, ww); }
        u128 root = 0; for (int b = 63; b >= 0; --b) { u128 x = root | (u128(1) << b); if (x * x <= area) root = x; }
        u128 e = n == 0 ? 0 : root - u128(s); if (e < u128(mx)) e = u128(mx);
        e += u128(2 * m); if (e > u128(std::numeric_limits<T>::max())) e = u128(std::numeric_limits<T>::max());
        vc_check(u128(p.suggest_bin_width()) == e, "suggested width");
    }
}
VC_PROOF(suggested) /*: native=1 bound=sizes_near_and_far_from_the_limits */ {
    for (int n : { 0, 1, 2, 5, 30 }) { suggested<int>(1, n); suggested<int>(1000, n); suggested<int>(40000000, n); suggested<int>(214748364, n); suggested<short>(3000, n); suggested<short>(10, n); suggested<long>(1000000, n); if (n < 4) suggested<long>(900000000000000000, n); suggested<long>(3000000000, n); suggested<signed char>(12, n); }
}

// core::RangeMap: a partial function on an ordered discrete domain, stored as disjoint ranges.
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <type_traits>
#include <utility>
#define private public
#include <archon/core/range_map.hpp>
#undef private
#include "vc.hpp"
using namespace archon;
using std::size_t;
#ifdef VC_PROVE
// Assumed contract of the red-black tree primitives of the C++ library: in-order neighbours, linking, and removal.
// (Stand-ins that do not rebalance; shape is not observable through std::map.)
namespace std {
    typedef _Rb_tree_node_base* NP;
    static NP inc(NP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
    static NP dec(NP x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; } NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
    NP _Rb_tree_increment(NP x) throw() { return inc(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<NP>(x)); }
    NP _Rb_tree_decrement(NP x) throw() { return dec(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<NP>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& h) throw() {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    }
    NP _Rb_tree_rebalance_for_erase(const NP z, _Rb_tree_node_base& h) throw() {
        // splice out z (at most one child), or replace it by its successor
        NP leftmost = h._M_left == z ? inc(z) : h._M_left, rightmost = h._M_right == z ? dec(z) : h._M_right;
        NP up = z->_M_parent; NP sub;
        if (!z->_M_left) sub = z->_M_right;
        else if (!z->_M_right) sub = z->_M_left;
        else {
            sub = z->_M_right; while (sub->_M_left) sub = sub->_M_left;
            if (sub != z->_M_right) { sub->_M_parent->_M_left = sub->_M_right; if (sub->_M_right) sub->_M_right->_M_parent = sub->_M_parent; sub->_M_right = z->_M_right; z->_M_right->_M_parent = sub; }
            sub->_M_left = z->_M_left; z->_M_left->_M_parent = sub;
        }
        if (sub) sub->_M_parent = up;
        if (up == &h) h._M_parent = sub; else if (up->_M_left == z) up->_M_left = sub; else up->_M_right = sub;
        h._M_left = leftmost; h._M_right = rightmost;
        if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
        return z;
    }
}
#endif
using Map = core::RangeMap<int, int>;
struct Rng { int first, last, value; };
template<int N> struct State {
    Map m; Rng r[N > 0 ? N : 1];
    State() {
        for (int i = 0; i < N; ++i) {
            r[i] = { vc::any<int>(), vc::any<int>(), vc::any<int>() };
            vc_assume(r[i].first <= r[i].last && (i == 0 || r[i - 1].last < r[i].first));
            m.m_map.insert(m.m_map.end(), std::pair(r[i].first, std::pair(r[i].last, r[i].value)));
        }
    }
    bool at(int k, int& v) const { for (int i = 0; i < N; ++i) if (k >= r[i].first && k <= r[i].last) { v = r[i].value; return true; } return false; }
};
// the function represented by the map; also checks that ranges are proper, ascending and disjoint
template<int MAX> static bool lookup(const Map& m, int k, int& v, int& n) {
    bool f = false; n = 0; int prev = 0;
    for (auto e : m) {
        vc_check(e.range().first <= e.range().last && (n == 0 || prev < e.range().first), "ranges are nonempty, ascending and disjoint");
        prev = e.range().last; ++n;
        vc_check(n <= MAX, "number of ranges");
        if (k >= e.range().first && k <= e.range().last) { f = true; v = e.value(); }
    }
    return f;
}
template<int N> static void update() {
    State<N> s; int a = vc::any<int>(), b = vc::any<int>(), d = vc::any<int>(), k = vc::any<int>(); vc_assume(a <= b);
    bool set = vc::any<bool>(), single = vc::any<bool>();
    if (single) b = a;
    int v0 = 0; bool f0 = s.at(k, v0); bool in = k >= a && k <= b;
    if (set) { if (single) s.m.assign(a, d); else s.m.assign({ a, b }, d); }
    else { auto f = [&](int& x) { x = int(unsigned(x) * 3 + unsigned(d)); }; if (single) s.m.update(a, f); else s.m.update({ a, b }, f); }
    int v = 0, n; bool f = lookup<2 * N + 1>(s.m, k, v, n);
    vc_check(f == (f0 || in), "domain extended by exactly the range");
    if (f) vc_check(v == (!in ? v0 : set ? d : int(unsigned(v0) * 3 + unsigned(d))), "updated once in the range, unchanged elsewhere");
}
//: proof update_ loops=unroll bounded=3 bound=maps_of_at_most_3_ranges split=1 time=400
VC_PROOF(update_0) { update<0>(); }
VC_PROOF(update_1) { update<1>(); }
VC_PROOF(update_2) { update<2>(); }
//: proof update_3 loops=unroll bounded=3 bound=maps_of_at_most_3_ranges split=1 time=800 tier=thorough
VC_PROOF(update_3) { update<3>(); }
template<int N> static void defrag() {
    State<N> s; int k = vc::any<int>();
    bool par = vc::any<bool>();
    int v0 = 0; bool f0 = s.at(k, v0);
    auto eq = [](int x, int y) { return ((x ^ y) & 1) == 0; };
    if (par) s.m.defrag(eq); else s.m.defrag();
    int v = 0, n; bool f = lookup<N>(s.m, k, v, n);
    vc_check(f == f0 && (!f || (par ? eq(v, v0) : v == v0)), "represented function is unchanged");
    int runs = 0, base = 0;
    for (int i = 0; i < N; ++i) {
        bool merge = i > 0 && s.r[i].first - 1 == s.r[i - 1].last && (par ? eq(base, s.r[i].value) : base == s.r[i].value);
        if (!merge) { ++runs; base = s.r[i].value; }
    }
    vc_check(n == runs, "adjacent ranges with equal values are merged, and only those");
}
//: proof defrag_ loops=unroll bounded=3 bound=maps_of_at_most_3_ranges split=1 time=400
VC_PROOF(defrag_0) { defrag<0>(); }
VC_PROOF(defrag_1) { defrag<1>(); }
VC_PROOF(defrag_2) { defrag<2>(); }
VC_PROOF(defrag_3) { defrag<3>(); }
// Sequences of updates on small domains, including the ends of the key type.
VC_PROOF(sequences) /*: native=1 bound=all_sequences_of_3_updates_on_6_keys_at_either_end_of_the_key_type */ {
    for (int base : { -128, 122, -3 }) {
        for (int code = 0; code < 21 * 21 * 21; ++code) {
            core::RangeMap<signed char, int> m; int ref[6] = {}; bool has[6] = {};
            int c = code;
            for (int t = 0; t < 3; ++t, c /= 21) {
                int w = c % 21, a = 0; while (w >= 6 - a) { w -= 6 - a; ++a; } int b = a + w;
                m.update({ (signed char)(base + a), (signed char)(base + b) }, [&](int& x) { x = x * 10 + t + 1; });
                for (int k = a; k <= b; ++k) { ref[k] = ref[k] * 10 + t + 1; has[k] = true; }
                if (t == 1) m.defrag();
            }
            int k = 0;
            for (auto e : m) {
                for (; k < 6 && base + k < e.range().first; ++k) vc_check(!has[k], "gap");
                for (; k < 6 && base + k <= e.range().last; ++k) vc_check(has[k] && ref[k] == e.value(), "value");
                vc_check(base + k == e.range().last + 1, "range end");
            }
            for (; k < 6; ++k) vc_check(!has[k], "tail");
        }
    }
}

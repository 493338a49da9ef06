// core::Vector is a sequence: every operation from every reachable representation state.
#include <algorithm>
#include <bit>
#include <compare>
#include <concepts>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define private public
#include <archon/core/vector.hpp>
#undef private
#include "vc.hpp"
using namespace archon;
using u32 = std::uint32_t;
constexpr std::size_t big = std::size_t(1) << 32;
// An arbitrary vector with S statically allocated elements.
template<std::size_t S> struct Any {
    core::Vector<u32, S> v;
    u32* mem; std::size_t cap, size;
    Any() {
        auto& i = v.impl();
        if (vc::any<bool>()) {
            cap = vc::any_size(); vc_assume(cap <= big);
            mem = vc::heap_array<u32>(cap);
            i.m_owned_memory.reset(reinterpret_cast<std::byte*>(mem));
            i.m_data = mem; i.m_capacity = cap;
        }
        else {
            cap = S; mem = i.m_data;
            if (vc::any<bool>()) { cap = 0; i.m_capacity = 0; if (vc::any<bool>()) i.m_data = nullptr; } // moved from
            for (std::size_t j = 0; j < S; ++j) if (cap) mem[j] = vc::any<u32>();
        }
        size = vc::any_size(); vc_assume(size <= cap);
        i.m_size = size;
    }
};
template<std::size_t S> static void valid(core::Vector<u32, S>& v) {
    auto& i = v.impl();
    vc_check(i.m_size <= i.m_capacity, "size within capacity");
    if (i.m_owned_memory) vc_check(reinterpret_cast<std::byte*>(i.m_data) == i.m_owned_memory.get(), "owned memory is in use");
    std::size_t c = vc::any_size();
    if (c < i.m_capacity) vc_hint64(i.m_data[c]);      // all memory up to the capacity is there
    if (!i.m_owned_memory) vc_check(i.m_capacity <= S && (i.m_capacity == 0 || i.m_data == v.static_mem()), "static memory is in use");
}
template<std::size_t S> static void push_back() {
    Any<S> a; u32 x = vc::any<u32>(); std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : x;
    u32& r = a.v.push_back(x);
    vc_check(&r == a.v.data() + a.size && a.v.size() == a.size + 1, "appended"); valid(a.v);
    if (k < a.size + 1) vc_check(a.v[k] == old, "elements");
}
template<std::size_t S> static void pop_back() {
    Any<S> a; vc_assume(a.size > 0); std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : 0;
    a.v.pop_back();
    vc_check(a.v.size() == a.size - 1, "size"); valid(a.v);
    if (k < a.size - 1) vc_check(a.v[k] == old, "elements");
}
template<std::size_t S> static void insert() {
    Any<S> a; u32 x = vc::any<u32>(); std::size_t p = vc::any_size(); vc_assume(p <= a.size);
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : 0;
    u32* i = a.v.emplace(a.v.data() + p, x);
    vc_check(a.v.size() == a.size + 1 && i == a.v.data() + p && *i == x, "inserted"); valid(a.v);
    if (k < a.size) vc_check(a.v[k < p ? k : k + 1] == old, "other elements are kept");
}
template<std::size_t S> static void erase() {
    Any<S> a; std::size_t b = vc::any_size(), e = vc::any_size(); vc_assume(b <= e && e <= a.size);
    bool one = vc::any<bool>(); if (one) vc_assume(e == b + 1);
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : 0;
    u32* i = one ? a.v.erase(a.v.data() + b) : a.v.erase(a.v.data() + b, a.v.data() + e);
    vc_check(a.v.size() == a.size - (e - b) && i == a.v.data() + b, "erased"); valid(a.v);
    if (k < b) vc_check(a.v[k] == old, "elements before the range are kept");
    else if (k >= e && k < a.size) vc_check(a.v[k - (e - b)] == old, "elements after the range are kept");
}
template<std::size_t S> static void append_fill() {
    Any<S> a; std::size_t n = vc::any_size(); u32 x = vc::any<u32>(); vc_assume(n <= big);
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : x;
    a.v.append(n, x);
    vc_check(a.v.size() == a.size + n, "size"); valid(a.v);
    if (k < a.size + n) vc_check(a.v[k] == old, "elements");
}
template<std::size_t S> static void append_range() {
    Any<S> a; std::size_t n = vc::any_size(); vc_assume(n <= big); u32* p = vc::array<u32>(n);
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : k - a.size < n ? p[k - a.size] : 0;
    a.v.append(p, p + n);
    vc_check(a.v.size() == a.size + n, "size"); valid(a.v);
    if (k < a.size + n) vc_check(a.v[k] == old, "elements");
}
template<std::size_t S> static void assign() {
    Any<S> a; std::size_t n = vc::any_size(); vc_assume(n <= big); bool fill = vc::any<bool>(); u32 x = vc::any<u32>(); u32* p = vc::array<u32>(n);
    std::size_t k = vc::any_size(); u32 old = fill ? x : k < n ? p[k] : 0;
    if (fill) a.v.assign(n, x); else a.v.assign(p, p + n);
    vc_check(a.v.size() == n, "size"); valid(a.v);
    if (k < n) vc_check(a.v[k] == old, "elements");
}
template<std::size_t S> static void resize() {
    Any<S> a; std::size_t n = vc::any_size(); bool with = vc::any<bool>(); u32 x = vc::any<u32>(); vc_assume(n <= big);
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : with ? x : 0;
    if (with) a.v.resize(n, x); else a.v.resize(n);
    vc_check(a.v.size() == n, "size"); valid(a.v);
    if (k < n) vc_check(a.v[k] == old, "elements");
}
template<std::size_t S> static void capacity() {
    Any<S> a; std::size_t n = vc::any_size(); unsigned op = vc::any<unsigned>();
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : 0;
    if (op == 0) { vc_assume(n <= 2 * big); a.v.reserve(n); vc_check(a.v.capacity() >= n, "reserved capacity"); }
    else if (op == 1) { vc_assume(n <= 2 * big); a.v.reserve_extra(n); vc_check(a.v.capacity() >= a.size + n, "reserved extra capacity"); }
    else a.v.shrink_to_fit();
    vc_check(a.v.size() == a.size, "size"); valid(a.v);
    if (k < a.size) vc_check(a.v[k] == old, "elements are kept");
}
template<std::size_t S> static void reserve_limit() {
    Any<S> a; std::size_t n = vc::any_size(); bool threw = false;
    vc_assume(n > (std::size_t(1) << 62));
    try { if (vc::any<bool>()) a.v.reserve(n); else a.v.reserve_extra(n); } catch (std::length_error&) { threw = true; }
    vc_check(threw && a.v.size() == a.size && a.v.capacity() == a.cap, "impossible capacities are refused"); valid(a.v);
}
template<std::size_t S> static void move() {
    Any<S> a; std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : 0;
    core::Vector<u32, S> b(std::move(a.v));
    vc_check(b.size() == a.size && a.v.empty(), "size"); valid(a.v); valid(b);
    if (k < a.size) vc_check(b[k] == old, "elements are moved");
    a.v.push_back(1); valid(a.v);
    a.v = std::move(b);
    vc_check(a.v.size() == a.size && b.empty(), "size"); valid(a.v); valid(b);
    if (k < a.size) vc_check(a.v[k] == old, "elements are moved back");
}
template<std::size_t S> static void access() {
    Any<S> a; std::size_t k = vc::any_size(); u32 old = k < a.size ? a.mem[k] : 0;
    bool in = true; u32 got = 0;
    try { got = a.v.at(k); } catch (std::out_of_range&) { in = false; }
    vc_check(in == (k < a.size) && (!in || got == old), "checked access");
    vc_check(a.v.end() - a.v.begin() == std::ptrdiff_t(a.size) && a.v.empty() == (a.size == 0), "range");
    if (k < a.size) vc_check(a.v[k] == old && a.v.begin()[k] == old && a.v.front() == a.mem[0] && a.v.back() == a.mem[a.size - 1], "element access");
    a.v.clear(); vc_check(a.v.empty(), "cleared"); valid(a.v);
}
VC_PROOF(push_back_dynamic) /*: loops=inv */ { push_back<0>(); }
VC_PROOF(push_back_static) /*: loops=inv */ { push_back<3>(); }
VC_PROOF(pop_back_dynamic) /*: loops=inv */ { pop_back<0>(); }
VC_PROOF(pop_back_static) /*: loops=inv */ { pop_back<3>(); }
VC_PROOF(insert_dynamic) /*: loops=inv */ { insert<0>(); }
VC_PROOF(insert_static) /*: loops=inv */ { insert<3>(); }
VC_PROOF(erase_dynamic) /*: loops=inv */ { erase<0>(); }
VC_PROOF(erase_static) /*: loops=inv */ { erase<3>(); }
VC_PROOF(append_fill_dynamic) /*: loops=inv */ { append_fill<0>(); }
VC_PROOF(append_fill_static) /*: loops=inv */ { append_fill<3>(); }
VC_PROOF(append_range_dynamic) /*: loops=inv */ { append_range<0>(); }
VC_PROOF(append_range_static) /*: loops=inv */ { append_range<3>(); }
VC_PROOF(assign_dynamic) /*: loops=inv */ { assign<0>(); }
VC_PROOF(assign_static) /*: loops=inv */ { assign<3>(); }
VC_PROOF(resize_dynamic) /*: loops=inv */ { resize<0>(); }
VC_PROOF(resize_static) /*: loops=inv */ { resize<3>(); }
VC_PROOF(capacity_dynamic) /*: loops=inv */ { capacity<0>(); }
VC_PROOF(capacity_static) /*: loops=inv */ { capacity<3>(); }
VC_PROOF(reserve_limit_dynamic) /*: loops=inv */ { reserve_limit<0>(); }
VC_PROOF(reserve_limit_static) /*: loops=inv */ { reserve_limit<3>(); }
VC_PROOF(move_dynamic) /*: loops=inv */ { move<0>(); }
VC_PROOF(move_static) /*: loops=inv */ { move<3>(); }
VC_PROOF(access_dynamic) /*: loops=inv */ { access<0>(); }
VC_PROOF(access_static) /*: loops=inv */ { access<3>(); }

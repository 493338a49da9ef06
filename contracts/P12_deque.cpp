// core::Deque is a sequence: every operation from every reachable representation state.
#include <algorithm>
#include <bit>
#include <compare>
#include <concepts>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define private public
#include <archon/core/deque.hpp>
#undef private
#include "vc.hpp"
using namespace archon;
using u32 = std::uint32_t;
using D = core::Deque<u32>;
// An arbitrary deque: any allocation, any offset, any size that leaves one slot free.
struct Any {
    D d;
    u32* mem; std::size_t alloc, off, size;
    explicit Any(std::size_t max = std::size_t(1) << 20) {
        alloc = vc::any_size(); off = vc::any_size(); size = vc::any_size();
        vc_assume(alloc <= max);
        if (alloc == 0) { vc_assume(off == 0 && size == 0); mem = nullptr; return; }
        vc_assume(alloc >= 2 && off < alloc && size < alloc);
        mem = vc::heap_array<u32>(alloc);
        d.m_memory.reset(reinterpret_cast<std::byte*>(mem));
        d.m_allocated_size = alloc; d.m_offset = off; d.m_size = size;
    }
    u32 pre(std::size_t k) const { std::size_t top = alloc - off; return k < top ? mem[off + k] : mem[k - top]; } // valid before modification
};
static void valid(const D& d) {
    if (d.m_allocated_size == 0) { vc_check(d.m_offset == 0 && d.m_size == 0, "empty representation"); return; }
    vc_check(d.m_offset < d.m_allocated_size && d.m_size < d.m_allocated_size, "representation invariant");
}
static u32 at(const D& d, std::size_t k) {
    const u32* b = reinterpret_cast<const u32*>(d.m_memory.get());
    std::size_t top = d.m_allocated_size - d.m_offset;
    return k < top ? b[d.m_offset + k] : b[k - top];
}
VC_PROOF(push_back) /*: loops=inv */ {
    Any a; u32 v = vc::any<u32>(); std::size_t k = vc::any_size(); u32 old = k < a.size ? a.pre(k) : 0;
    u32& r = a.d.push_back(v);
    vc_check(&r == &a.d[a.size] && r == v && a.d.size() == a.size + 1, "appended");
    valid(a.d);
    if (k < a.size) vc_check(at(a.d, k) == old, "other elements are kept");
}
VC_PROOF(push_front) /*: loops=inv */ {
    Any a; u32 v = vc::any<u32>(); std::size_t k = vc::any_size(); u32 old = k < a.size ? a.pre(k) : 0;
    u32& r = a.d.push_front(v);
    vc_check(&r == &a.d[0] && r == v && a.d.size() == a.size + 1, "prepended");
    valid(a.d);
    if (k < a.size) vc_check(at(a.d, k + 1) == old, "other elements are kept");
}
VC_PROOF(pop_back) /*: loops=inv */ {
    Any a; vc_assume(a.size > 0); std::size_t k = vc::any_size(); u32 old = k < a.size ? a.pre(k) : 0;
    a.d.pop_back();
    vc_check(a.d.size() == a.size - 1, "size"); valid(a.d);
    if (k < a.size - 1) vc_check(at(a.d, k) == old, "other elements are kept");
}
VC_PROOF(pop_front) /*: loops=inv */ {
    Any a; vc_assume(a.size > 0); std::size_t k = vc::any_size(); u32 old = k < a.size ? a.pre(k) : 0;
    a.d.pop_front();
    vc_check(a.d.size() == a.size - 1, "size"); valid(a.d);
    if (k < a.size && k > 0) vc_check(at(a.d, k - 1) == old, "other elements are kept");
}
VC_PROOF(element_access) /*: loops=inv */ {
    Any a; std::size_t k = vc::any_size(); vc_assume(k < a.size); u32 old = a.pre(k);
    vc_check(a.d[k] == old && std::as_const(a.d)[k] == old, "indexing");
    vc_check(a.d.front() == a.pre(0) && a.d.back() == a.pre(a.size - 1), "front and back");
    auto i = a.d.begin() + std::ptrdiff_t(k);
    vc_check(*i == old && i - a.d.begin() == std::ptrdiff_t(k) && a.d.end() - i == std::ptrdiff_t(a.size - k), "iterator arithmetic");
    auto j = i; ++j;
    vc_check(j - i == 1 && j != i && i < j, "increment");
    vc_check(j == a.d.end() || *j == a.pre(k + 1), "increment reaches the next element"); --j;
    vc_check(j == i && &*j == &a.d[k], "decrement");
    bool in = true; try { (void)a.d.at(a.size); } catch (std::out_of_range&) { in = false; }
    vc_check(!in && a.d.at(k) == old, "checked access");
}
// Erasing moves the elements of the shorter side through the wrapping iterator.
template<bool front> static void erase_range(std::size_t max) {
    Any a(max); std::size_t b = vc::any_size(), e = vc::any_size(); vc_assume(b <= e && e <= a.size);
    vc_assume((b < a.size - e) == front);
    std::size_t k = vc::any_size(); vc_assume(k < a.size - (e - b)); u32 old = a.pre(k < b ? k : k + (e - b));
    auto i = a.d.erase(a.d.begin() + std::ptrdiff_t(b), a.d.begin() + std::ptrdiff_t(e));
    vc_check(a.d.size() == a.size - (e - b), "size"); valid(a.d);
    vc_check(i - a.d.begin() == std::ptrdiff_t(b), "returned iterator");
    vc_check(at(a.d, k) == old, "other elements are kept");
}
VC_PROOF(erase_range_front) /*: loops=unroll bounded=5 bound=at_most_5_allocated_slots */ { erase_range<true>(5); }
VC_PROOF(erase_range_back) /*: loops=unroll bounded=5 bound=at_most_5_allocated_slots */ { erase_range<false>(5); }
template<bool front> static void erase_one(std::size_t max) {
    Any a(max); std::size_t b = vc::any_size(); vc_assume(b < a.size);
    vc_assume((b < a.size - (b + 1)) == front);
    std::size_t k = vc::any_size(); vc_assume(k < a.size - 1); u32 old = a.pre(k < b ? k : k + 1);
    auto i = a.d.erase(a.d.begin() + std::ptrdiff_t(b));
    vc_check(a.d.size() == a.size - 1, "size"); valid(a.d);
    vc_check(i - a.d.begin() == std::ptrdiff_t(b), "returned iterator");
    vc_check(at(a.d, k) == old, "other elements are kept");
}
VC_PROOF(erase_one_front) /*: loops=unroll bounded=6 bound=at_most_6_allocated_slots */ { erase_one<true>(6); }
VC_PROOF(erase_one_back) /*: loops=unroll bounded=6 bound=at_most_6_allocated_slots */ { erase_one<false>(6); }
static void append_fill(std::size_t max) {
    Any a(max); std::size_t n = vc::any_size(); u32 v = vc::any<u32>(); vc_assume(n <= max);
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.pre(k) : v;
    a.d.append(n, v);
    vc_check(a.d.size() == a.size + n, "size"); valid(a.d);
    if (k < a.size + n) vc_check(at(a.d, k) == old, "elements");
}
VC_PROOF(append_fill) /*: loops=inv */ { append_fill(std::size_t(1) << 20); }
static void append_range(std::size_t max) {
    Any a(max); std::size_t n = vc::any_size(); vc_assume(n <= max); u32* p = vc::array<u32>(n);
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.pre(k) : k - a.size < n ? p[k - a.size] : 0;
    a.d.append(p, p + n);
    vc_check(a.d.size() == a.size + n, "size"); valid(a.d);
    if (k < a.size + n) vc_check(at(a.d, k) == old, "elements");
}
VC_PROOF(append_range_all_sizes) /*: loops=inv tier=thorough */ { append_range(std::size_t(1) << 20); }
VC_PROOF(append_range) /*: loops=unroll bounded=4 bound=at_most_4_allocated_slots_and_4_new_elements */ { append_range(4); }
static void resize(std::size_t max) {
    Any a(max); std::size_t n = vc::any_size(); bool with = vc::any<bool>(); u32 v = vc::any<u32>(); vc_assume(n <= max);
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.pre(k) : with ? v : 0;
    if (with) a.d.resize(n, v); else a.d.resize(n);
    vc_check(a.d.size() == n, "size"); valid(a.d);
    if (k < n) vc_check(at(a.d, k) == old, "elements");
}
VC_PROOF(resize_all_sizes) /*: loops=inv tier=thorough */ { resize(std::size_t(1) << 20); }
VC_PROOF(resize) /*: loops=unroll bounded=5 bound=at_most_5_allocated_slots_and_size_5 */ { resize(5); }
VC_PROOF(capacity) /*: loops=inv */ {
    Any a; std::size_t n = vc::any_size(); unsigned op = vc::any<unsigned>();
    std::size_t k = vc::any_size(); u32 old = k < a.size ? a.pre(k) : 0;
    if (op == 0) { vc_assume(n <= (std::size_t(1) << 33)); a.d.reserve(n); vc_check(a.d.capacity() >= n, "reserved capacity"); }
    else if (op == 1) { vc_assume(n <= (std::size_t(1) << 33)); a.d.reserve_extra(n); vc_check(a.d.capacity() >= a.size + n, "reserved extra capacity"); }
    else if (op == 2) { a.d.shrink_to_fit(); vc_check(a.d.capacity() == a.size, "capacity shrinks to the size"); }
    else { D e; e.swap(a.d); vc_check(a.d.empty(), "swapped"); valid(e); a.d = std::move(e); }
    vc_check(a.d.size() == a.size, "size"); valid(a.d);
    if (k < a.size) vc_check(at(a.d, k) == old, "elements are kept");
}
VC_PROOF(reserve_limit) /*: loops=inv */ {
    Any a; std::size_t n = vc::any_size(); bool threw = false;
    vc_assume(n > (std::size_t(1) << 62));
    try { if (vc::any<bool>()) a.d.reserve(n); else a.d.reserve_extra(n); } catch (std::length_error&) { threw = true; }
    vc_check(threw && a.d.size() == a.size, "impossible capacities are refused"); valid(a.d);
}

// Flat maps and sets are sorted sequences with binary search.
#include <algorithm>
#include <bit>
#include <compare>
#include <concepts>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define private public
#include <archon/core/vector.hpp>
#include <archon/core/flat_map.hpp>
#include <archon/core/flat_multimap.hpp>
#include <archon/core/flat_set.hpp>
#include <archon/core/flat_multiset.hpp>
#undef private
#include "vc.hpp"
using namespace archon;
using u8 = std::uint8_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
// A key whose order looks at one part only, so that equivalent keys are distinguishable.
struct Key {
    u32 k; u32 tag;
    bool operator<(const Key& o) const noexcept { return k < o.k; }
};
using Map = core::FlatMap<Key, u64>; using MapS = core::FlatMap<Key, u64, 3>; using Multimap = core::FlatMultimap<Key, u64>;
using Set = core::FlatSet<Key>; using SetS = core::FlatSet<Key, 3>; using Multiset = core::FlatMultiset<Key>;
template<class M> constexpr bool is_map = false;
template<class K, class V, std::size_t N> constexpr bool is_map<core::FlatMap<K, V, N>> = true;
template<class K, class V, std::size_t N> constexpr bool is_map<core::FlatMultimap<K, V, N>> = true;
template<class M> constexpr bool is_multi = false;
template<class K, class V, std::size_t N> constexpr bool is_multi<core::FlatMultimap<K, V, N>> = true;
template<class K, std::size_t N> constexpr bool is_multi<core::FlatMultiset<K, N>> = true;
template<class E> static const Key& key(const E& e) { if constexpr (std::is_same_v<std::remove_const_t<E>, Key>) return e; else return e.first; }
template<class E> static u64 val(const E& e) { if constexpr (std::is_same_v<std::remove_const_t<E>, Key>) return 0; else return e.second; }
static Key anykey() { u32 k = vc::any<u32>(); return { k, vc::any<u32>() }; }
// An arbitrary container of B entries, together with its contents.
template<class M, std::size_t B> struct Any {
    M m; Key keys[B + 1]; u64 vals[B + 1]; std::size_t n = B;
    Any() {
        auto& v = m.m_impl.m_entries;
        if (vc::any<bool>()) v.reserve(B + 1);
        for (std::size_t i = 0; i < B; ++i) {
            keys[i] = anykey(); vals[i] = vc::any<u64>();
            if (i > 0) vc_assume(is_multi<M> ? keys[i - 1].k <= keys[i].k : keys[i - 1].k < keys[i].k);
            if constexpr (is_map<M>) v.emplace_back(keys[i], vals[i]); else v.push_back(keys[i]);
        }
    }
    std::size_t lower(Key q) const { std::size_t r = 0; for (std::size_t i = 0; i < B; ++i) if (i < n && keys[i].k < q.k) r = i + 1; return r; }
    std::size_t upper(Key q) const { std::size_t r = 0; for (std::size_t i = 0; i < B; ++i) if (i < n && keys[i].k <= q.k) r = i + 1; return r; }
    void check(std::size_t j) const {       // entry j is as recorded
        auto i = m.begin() + j;
        vc_check(key(*i).k == keys[j].k && key(*i).tag == keys[j].tag && (!is_map<M> || val(*i) == vals[j]), "entry");
    }
    void all() const {
        vc_check(m.size() == n && m.empty() == (n == 0) && m.capacity() >= n, "size");
        vc_check(m.end() - m.begin() == std::ptrdiff_t(n) && m.cbegin() == m.begin() && m.cend() == m.end() &&
                 m.rbegin().base() == m.end() && m.rend().base() == m.begin() && m.crbegin() == m.rbegin() && m.crend() == m.rend(), "range");
        vc::forall(n, [&](std::size_t j) { check(j); });
    }
};
template<class M, std::size_t B> static void lookup() {
    Any<M, B> a; Key q = anykey(); const M& c = a.m;
    std::size_t l = a.lower(q), u = a.upper(q);
    auto b = a.m.begin(); auto cb = c.begin();
    vc_check(a.m.lower_bound(q) == b + l && c.lower_bound(q) == cb + l, "lower bound");
    vc_check(a.m.upper_bound(q) == b + u && c.upper_bound(q) == cb + u, "upper bound");
    auto r = a.m.equal_range(q); auto s = c.equal_range(q);
    vc_check(r.first == b + l && r.second == b + u && s.first == cb + l && s.second == cb + u, "equal range");
    vc_check(a.m.find(q) == (l < u ? b + l : a.m.end()) && c.find(q) == (l < u ? cb + l : c.end()), "find");
    vc_check(c.contains(q) == (l < u) && c.count(q) == u - l, "contains and count");
    a.all();
}
template<class M, std::size_t B> static void insert() {
    Any<M, B> a; Key q = anykey(); u64 w = vc::any<u64>();
    std::size_t u = a.upper(q); bool dup = a.lower(q) < u && !is_multi<M>;
    std::size_t at = dup ? u - 1 : u;
    int how = vc::any<u8>();
    auto ins = [&] {
        if constexpr (is_map<M>) {
            if (how == 0) return a.m.emplace(q, w);
            typename M::value_type e(q, w);
            if (how == 1) return a.m.insert(e);
            return a.m.insert(std::move(e));
        }
        else { if (how == 0) return a.m.emplace(q); if (how == 1) return a.m.insert(q); return a.m.insert(std::move(q)); }
    };
    auto r = ins();
    if constexpr (is_multi<M>) vc_check(r == a.m.begin() + at, "position");
    else vc_check(r.first == a.m.begin() + at && r.second == !dup, "position and outcome");
    if (!dup) {
        for (std::size_t i = B; i > 0; --i) if (i > at) { a.keys[i] = a.keys[i - 1]; a.vals[i] = a.vals[i - 1]; }
        for (std::size_t i = 0; i <= B; ++i) if (i == at) { a.keys[i] = q; a.vals[i] = w; }
        ++a.n;
    }
    a.all();
}
template<class M, std::size_t B> static void erase() {
    Any<M, B> a; Key q = anykey(); std::size_t l = a.lower(q), d = a.upper(q) - l;
    vc_check(a.m.erase(q) == d, "number of erased entries");
    for (std::size_t i = 0; i < B; ++i) if (i >= l && i + d < a.n) for (std::size_t j = i; j <= B; ++j) if (j == i + d) { a.keys[i] = a.keys[j]; a.vals[i] = a.vals[j]; }
    a.n -= d;
    a.all();
}
template<class M, std::size_t B> static void misc() {
    Any<M, B> a; int how = vc::any<u8>(); std::size_t c = vc::any_size();
    if (how == 0) { a.m.clear(); a.n = 0; }
    if (how == 1) { vc_assume(c <= B + 1); a.m.reserve(c); vc_check(a.m.capacity() >= c, "reserved"); }
    if (how == 2) { vc_assume(c <= B + 1); a.m.reserve_extra(c); vc_check(a.m.capacity() - a.n >= c, "reserved extra"); }
    if (how == 3) a.m.shrink_to_fit();
    a.all();
}
template<class M, std::size_t B> static void access() {
    Any<M, B> a; Key q = anykey(); const M& c = a.m; std::size_t l = a.lower(q), u = a.upper(q); bool found = true;
    try { auto& r = a.m.at(q); vc_check(&r == &(a.m.begin() + l)->second && &c.at(q) == &r, "reference to value"); }
    catch (const std::out_of_range&) { found = false; }
    vc_check(found == (l < u), "at succeeds exactly when there is an entry");
    a.all();
}
template<class M, std::size_t B> static void subscript() {
    Any<M, B> a; Key q = anykey(); std::size_t l = a.lower(q), u = a.upper(q);
    u64& r = a.m[q];
    vc_check(&r == &(a.m.begin() + l)->second, "reference to value");
    if (l == u) {
        for (std::size_t i = B; i > 0; --i) if (i > l) { a.keys[i] = a.keys[i - 1]; a.vals[i] = a.vals[i - 1]; }
        for (std::size_t i = 0; i <= B; ++i) if (i == l) { a.keys[i] = q; a.vals[i] = 0; }
        ++a.n;
    }
    a.all();
}
// Insertion of a range: the entries of the range are inserted one after the other
template<class M> static void insert_list() {
    Key q[3] = { anykey(), anykey(), anykey() }; u64 w[3] = { vc::any<u64>(), vc::any<u64>(), vc::any<u64>() };
    M x, y;
    if constexpr (is_map<M>) {
        typename M::value_type e[3] = { { q[0], w[0] }, { q[1], w[1] }, { q[2], w[2] } };
        x.insert(e, e + 3); y = M({ { q[0], w[0] }, { q[1], w[1] }, { q[2], w[2] } });
    }
    else { x.insert(q, q + 3); y = M({ q[0], q[1], q[2] }); }
    std::size_t p[3], n = 0;       // stable insertion
    for (std::size_t i = 0; i < 3; ++i) {
        std::size_t at = 0; bool dup = false;
        for (std::size_t j = 0; j < n; ++j) { if (q[p[j]].k <= q[i].k) at = j + 1; dup = dup || q[p[j]].k == q[i].k; }
        if (dup && !is_multi<M>) continue;
        for (std::size_t j = n; j > at; --j) p[j] = p[j - 1];
        p[at] = i; ++n;
    }
    vc_check(x.size() == n && y.size() == n, "size");
    vc::forall(n, [&](std::size_t j) {
        auto i = x.begin() + j; auto k = y.begin() + j;
        vc_check(key(*i).tag == q[p[j]].tag && key(*i).k == q[p[j]].k && (!is_map<M> || val(*i) == w[p[j]]), "entry of range");
        vc_check(key(*k).tag == q[p[j]].tag && key(*k).k == q[p[j]].k && (!is_map<M> || val(*k) == w[p[j]]), "entry of list");
    });
}
#define EACHN(F, T, M) VC_PROOF(F##_##T##_0) { F<M, 0>(); } VC_PROOF(F##_##T##_1) { F<M, 1>(); } VC_PROOF(F##_##T##_2) { F<M, 2>(); } \
    VC_PROOF(F##_##T##_3) { F<M, 3>(); } VC_PROOF(F##_##T##_4) { F<M, 4>(); }
#define EACH(F) EACHN(F, map, Map) EACHN(F, smap, MapS) EACHN(F, multimap, Multimap) EACHN(F, set, Set) EACHN(F, sset, SetS) EACHN(F, multiset, Multiset)
EACH(lookup) EACH(insert) EACH(erase) EACH(misc) EACHN(access, map, Map) EACHN(subscript, map, Map) EACHN(subscript, smap, MapS)
VC_PROOF(list_map) { insert_list<Map>(); } VC_PROOF(list_multimap) { insert_list<Multimap>(); }
VC_PROOF(list_set) { insert_list<Set>(); } VC_PROOF(list_multiset) { insert_list<Multiset>(); }
//: proof lookup_ loops=unroll bounded=8 split=1 bound=containers_of_at_most_4_entries
//: proof insert_ loops=unroll bounded=8 split=1 bound=containers_of_at_most_4_entries
//: proof erase_ loops=unroll bounded=8 split=1 bound=containers_of_at_most_4_entries
//: proof misc_ loops=unroll bounded=8 split=1 bound=containers_of_at_most_4_entries
//: proof access_ loops=unroll bounded=8 split=1 bound=containers_of_at_most_4_entries
//: proof subscript_ loops=unroll bounded=8 split=1 bound=containers_of_at_most_4_entries
//: proof list_ loops=unroll bounded=8 split=1 bound=ranges_of_at_most_3_entries

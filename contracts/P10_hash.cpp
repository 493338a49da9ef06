// FNV-1a hashing and hash maps that can be constructed at compile time.
#include <cstddef>
#include <cstdint>
#include <limits>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#define private public
#include <archon/core/hash.hpp>
#include <archon/core/hash_fnv.hpp>
#include <archon/core/literal_hash_map.hpp>
#undef private
#include "vc.hpp"
using namespace archon;
using std::size_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
static u32 step(u32 h, unsigned octet) { return (h ^ octet) * u32(16777619); }
static core::Hash_FNV_1a_32 any_state(u32& h) {
    core::Hash_FNV_1a_32 s;
    if (vc::any<bool>()) s.m_hash = vc::any<u64>(); else vc_check(s.get() == 2166136261u, "offset basis");
    h = u32(s.m_hash);
    return s;
}
VC_PROOF(fnv_byte) {
    u32 h; auto s = any_state(h); unsigned char b = vc::any<unsigned char>();
    s.add_byte(std::byte(b));
    vc_check(s.get() == step(h, b), "one octet digested");
}
template<class T> static void digest() {
    u32 h; auto s = any_state(h); auto s2 = s; T v = vc::any<T>();
    u64 u = u64(v);
    for (size_t k = 0; k < sizeof(T); ++k) h = step(h, unsigned(u >> (8 * k)) & 255);
    s.add_int(v);
    vc_check(s.get() == h, "octets of the integer digested in order");
    s2.add_obj(v);
    vc_check(s2.get() == h, "bytes of the object digested in order");
}
VC_PROOF(fnv_int_8) { if (vc::any<bool>()) digest<unsigned char>(); else digest<signed char>(); if (vc::any<bool>()) digest<char>(); }
VC_PROOF(fnv_int_16) { if (vc::any<bool>()) digest<unsigned short>(); else digest<short>(); if (vc::any<bool>()) digest<char16_t>(); }
VC_PROOF(fnv_int_32) { if (vc::any<bool>()) digest<unsigned>(); else digest<int>(); if (vc::any<bool>()) digest<wchar_t>(); }
VC_PROOF(fnv_int_64) { if (vc::any<bool>()) digest<unsigned long>(); else digest<long>(); }
template<class T> static void hashed() {
    T v = vc::any<T>();
    u32 h = 2166136261u; u64 u = u64(v);
    for (size_t k = 0; k < sizeof(T); ++k) h = step(h, unsigned(u >> (8 * k)) & 255);
    vc_check(core::Hash<T>()(v) == h, "hash value is the FNV-1a digest");
}
enum class En : short { a, b };
VC_PROOF(hash_func) {
    hashed<bool>(); hashed<char>(); hashed<unsigned char>(); hashed<short>(); hashed<int>(); hashed<long>(); hashed<char32_t>();
    short e = vc::any<short>(); vc_check(core::Hash<En>()(En(e)) == core::Hash<short>()(e), "enumerations hash as their underlying value");
}
// Maps with an arbitrary hash function: the two bits of the key chosen by the caller select the bucket.
struct H { constexpr size_t operator()(unsigned char k) const noexcept { return size_t(k) * 3 + (k >> 5); } };
template<size_t N, size_t M, bool rev> static void map_find() {
    unsigned char key[N]; u32 val[N];
    for (size_t i = 0; i < N; ++i) { key[i] = vc::any<unsigned char>(); val[i] = vc::any<u32>(); }
    core::LiteralHashMap<unsigned char, u32, H, N, M> m;
    if constexpr (rev) { std::pair<u32, unsigned char> a[N]; for (size_t i = 0; i < N; ++i) a[i] = { val[i], key[i] }; m.init_rev(a); }
    else { std::pair<unsigned char, u32> a[N]; for (size_t i = 0; i < N; ++i) a[i] = { key[i], val[i] }; m.init(a); }
    unsigned char q = vc::any<unsigned char>(); u32 v = vc::any<u32>(), v0 = v;
    bool f = false; u32 e = v0;
    for (size_t i = N; i-- > 0;) if (key[i] == q) { f = true; e = val[i]; }
    bool r = m.find(q, v);
    vc_check(r == f, "found exactly when present");
    vc_check(v == e, "value of the (first) entry with the key, or untouched");
}
//: proof map_ loops=unroll bounded=4 bound=maps_of_at_most_4_entries split=1 time=300
VC_PROOF(map_1_1) { map_find<1, 1, false>(); }
VC_PROOF(map_2_1) { map_find<2, 1, false>(); }
VC_PROOF(map_2_4) { map_find<2, 4, true>(); }
VC_PROOF(map_3_2) { map_find<3, 2, false>(); }
VC_PROOF(map_3_4) { map_find<3, 4, true>(); }
VC_PROOF(map_4_2) { map_find<4, 2, true>(); }
//: proof map_4_4 loops=unroll bounded=4 bound=maps_of_at_most_4_entries split=1 time=800 tier=thorough
VC_PROOF(map_4_4) { map_find<4, 4, false>(); }
// Maps over every 16-bit key with different numbers of buckets.
template<size_t N, size_t M> static void spread() {
    std::pair<short, int> a[N]; std::pair<int, short> b[N];
    for (size_t i = 0; i < N; ++i) { a[i] = { short(i * i * 257 - 30000 + i), int(i) }; b[i] = { a[i].second, a[i].first }; }
    auto m = core::make_literal_hash_map<M>(a); auto w = core::make_rev_literal_hash_map<M>(b);
    for (int k = -32768; k < 32768; ++k) {
        int e = -1; for (size_t i = N; i-- > 0;) if (a[i].first == k) e = int(i);
        int v = -1, u = -1; bool f = m.find(short(k), v), g = w.find(short(k), u);
        vc_check(f == (e >= 0) && g == f && v == e && u == e, "lookup in a map of many entries");
    }
}
VC_PROOF(spread) /*: native=1 bound=maps_of_1_to_60_entries_with_every_16-bit_key */ { spread<1, 0>(); spread<2, 0>(); spread<7, 0>(); spread<7, 3>(); spread<60, 0>(); spread<60, 1>(); spread<60, 200>(); }

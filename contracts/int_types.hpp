#pragma once
#include <vc.hpp>
#include <archon/core/integer.hpp>
namespace ct {
    namespace core = archon::core;
    using vc::i128; using vc::u128;
    template<class T> struct tag { using type = T; };
    template<class F> inline void with_type(unsigned k, F f) {
        switch (k) {
            case 0: return f(tag<signed char>{});
            case 1: return f(tag<unsigned char>{});
            case 2: return f(tag<short>{});
            case 3: return f(tag<unsigned short>{});
            case 4: return f(tag<int>{});
            case 5: return f(tag<unsigned>{});
            case 6: return f(tag<long long>{});
            case 7: return f(tag<unsigned long>{});
        }
    }
    inline unsigned any_type() { unsigned k = vc::any<std::uint8_t>(); vc_assume(k < 8); return k; }
    template<class T> constexpr bool fits(i128 v) { return v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max()); }
    template<class T, class E, class F> inline bool throws(F f) { try { f(); } catch (const E&) { return true; } return false; }
}
#define PAIRS(NAME, BODY) \
    template<class L> inline void NAME##_row() { unsigned k = ct::any_type(); ct::with_type(k, [](auto t) { BODY<L, typename decltype(t)::type>(); }); } \
    VC_PROOF(NAME##_sc) { NAME##_row<signed char>(); } VC_PROOF(NAME##_uc) { NAME##_row<unsigned char>(); } \
    VC_PROOF(NAME##_ss) { NAME##_row<short>(); } VC_PROOF(NAME##_us) { NAME##_row<unsigned short>(); } \
    VC_PROOF(NAME##_si) { NAME##_row<int>(); } VC_PROOF(NAME##_ui) { NAME##_row<unsigned>(); } \
    VC_PROOF(NAME##_sl) { NAME##_row<long long>(); } VC_PROOF(NAME##_ul) { NAME##_row<unsigned long>(); }

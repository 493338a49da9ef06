// Contract vocabulary.  A contract is a function defined through VC_PROOF: it draws arbitrary
// arguments, assumes the preconditions, calls the real code, and checks the postconditions.  The
// verification condition generator treats every vc_any* as universally quantified.  The same
// source compiled natively (without VC_PROVE) replays concrete inputs against the real code.
#ifndef VC_HPP
#define VC_HPP
#include <cstddef>
#include <cstdint>
#include <limits>
#include <type_traits>
extern "C" {
    std::uint8_t  vc_any8();
    std::uint16_t vc_any16();
    std::uint32_t vc_any32();
    std::uint64_t vc_any64();
    std::uint64_t vc_any_size();
    bool vc_anybool();
    float vc_anyfloat();
    double vc_anydouble();
    void* vc_any_array(std::size_t size, std::size_t elem_size);
    void* vc_any_heap(std::size_t size, std::size_t elem_size);   // to be released by delete[] of bytes
    void vc_assume(bool);
    void vc_check(bool, const char*);
    void vc_cover(const char*);
    bool vc_symbolic();
    std::size_t vc_bound();
    void vc_watch(const void*, std::size_t);
    void vc_hint64(std::uint64_t);
    void vc_fact(bool);      // a condition offered as a candidate invariant for subsequent loops
    void vc_native_register(const char*, void (*)());
}
namespace vc {
    typedef __int128 i128;
    typedef unsigned __int128 u128;
    template<class T> inline T any() {
        if constexpr (std::is_same_v<T, bool>) return vc_anybool();
        else if constexpr (std::is_same_v<T, float>) return vc_anyfloat();
        else if constexpr (std::is_same_v<T, double>) return vc_anydouble();
        else if constexpr (sizeof(T) == 1) return T(vc_any8());
        else if constexpr (sizeof(T) == 2) return T(vc_any16());
        else if constexpr (sizeof(T) == 4) return T(vc_any32());
        else if constexpr (sizeof(T) == 16) { std::uint64_t h = vc_any64(); return T((u128(h) << 64) | vc_any64()); }
        else { static_assert(sizeof(T) == 8); return T(vc_any64()); }
    }
    inline std::size_t any_size() { return vc_any_size(); }
    template<class T> inline T* array(std::size_t n) {
        vc_assume(n <= (std::size_t(1) << 36));
        return static_cast<T*>(vc_any_array(n * sizeof(T), sizeof(T)));
    }
    template<class T> inline T* heap_array(std::size_t n) {
        vc_assume(n <= (std::size_t(1) << 36));
        return static_cast<T*>(vc_any_heap(n * sizeof(T), sizeof(T)));
    }
    // for all k < n: f(k)   (symbolically: one arbitrary k; natively: every k)
    template<class F> inline void forall(std::size_t n, F f) {
        std::size_t k = vc_any_size();
        if (vc_symbolic()) { if (k < n) f(k); }
        else for (k = 0; k < n; ++k) f(k);
    }
}
#ifdef VC_PROVE
#  define VC_PROOF(name) extern "C" __attribute__((noinline, used)) void vc_proof_##name()
#else
#  define VC_PROOF(name) static void vc_proof_##name(); \
    static const int vc_reg_##name = (vc_native_register(#name, &vc_proof_##name), 0); \
    static void vc_proof_##name()
#endif
#endif

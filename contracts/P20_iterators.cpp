// Iterator adaptors: arithmetic, comparison and access agree with positions.
#include <cstddef>
#include <iterator>
#include <archon/core/stride_iterator.hpp>
#include <archon/core/index_iterator.hpp>
#include <archon/core/proxy_iterator.hpp>
#include "vc.hpp"
using namespace archon;
using std::size_t; using std::ptrdiff_t;
// An iterator that behaves as a position in a sequence: `at(k)` is the reference for position k.
template<class It, class Conv, class A> static void laws(ptrdiff_t n, Conv conv, A at) {
    ptrdiff_t a = vc::any<ptrdiff_t>(), b = vc::any<ptrdiff_t>(), k = vc::any<ptrdiff_t>();
    vc_assume(a >= 0 && a <= n && b >= 0 && b <= n && k >= -n && k <= n);
    It i = conv(a), j = conv(b);
    vc_check((i == j) == (a == b), "equal"); vc_check((i != j) == (a != b), "different");
    vc_check((i < j) == (a < b), "less"); vc_check((i > j) == (a > b), "greater");
    vc_check((i <= j) == (a <= b), "less or equal"); vc_check((i >= j) == (a >= b), "greater or equal");
    vc_check(i - j == a - b, "distance"); vc_check(i - i == 0, "no distance");
    vc_check(i + (b - a) == j && (b - a) + i == j && i - (a - b) == j, "advanced by the distance");
    { It x = i; It& y = (x += b - a); vc_check(x == j && &y == &x, "advance in place"); }
    { It x = i; It& y = (x -= a - b); vc_check(x == j && &y == &x, "retreat in place"); }
    if (a < n) {
        vc_check(&at(*i) == &at.ref(a), "access");
        It x = i; It& y = ++x; vc_check(x - i == 1 && &y == &x, "increment");
        It z = i; It o = z++; vc_check(z == x && o == i, "increment afterwards");
        It w = x--; vc_check(x == i && w == z, "decrement afterwards");
        It& v = --z; vc_check(z == i && &v == &z, "decrement");
    }
    if (a + k >= 0 && a + k < n) { vc_check(&at(i[k]) == &at.ref(a + k), "access at a distance"); vc_check(&at(*(i + k)) == &at.ref(a + k), "access after advancing"); }
}
template<class T> struct Strided { T* d; size_t s; T& operator()(T& r) { return r; } T& ref(ptrdiff_t k) { return d[size_t(k) * s]; } };
template<class T, size_t S> static void strided() {
    size_t n = vc::any_size(); vc_assume(n >= 1 && n <= (size_t(1) << 30));
    T* d = vc::array<T>(n * S);
    laws<core::StrideIterator<T*, S>>(ptrdiff_t(n), [&](ptrdiff_t k) { return core::make_stride_iterator<S>(d + size_t(k) * S); }, Strided<T> { d, S });
}
VC_PROOF(stride_1) { strided<int, 1>(); }
VC_PROOF(stride_2) { strided<char, 2>(); }
VC_PROOF(stride_3) { strided<int, 3>(); }
VC_PROOF(stride_4) { strided<long, 4>(); }
VC_PROOF(stride_7) { strided<short, 7>(); }
VC_PROOF(stride_nested) {
    size_t n = vc::any_size(); vc_assume(n >= 1 && n <= (size_t(1) << 30));
    int* d = vc::array<int>(n * 6);
    using In = core::StrideIterator<int*, 2>;
    laws<core::StrideIterator<In, 3>>(ptrdiff_t(n), [&](ptrdiff_t k) { return core::make_stride_iterator<3>(In(d + size_t(k) * 6)); }, Strided<int> { d, 6 });
}
// A container that is subscripted directly, and one that is subscripted through a specified function.
struct Direct { int* d; int& operator[](ptrdiff_t i) const { return d[i]; } };
struct Reverse { static int& subscr(Direct& c, ptrdiff_t i) { return c.d[-1 - i]; } };
VC_PROOF(index) {
    size_t n = vc::any_size(); vc_assume(n >= 1 && n <= (size_t(1) << 30));
    Direct c { vc::array<int>(n) };
    laws<core::IndexIterator<Direct>>(ptrdiff_t(n), [&](ptrdiff_t k) { return core::IndexIterator<Direct>(c, k); }, Strided<int> { c.d, 1 });
    ptrdiff_t k = vc::any<ptrdiff_t>(); vc_assume(k >= 0 && k < ptrdiff_t(n));
    vc_check(core::IndexIterator<Direct>(c, k).operator->() == c.d + k, "pointer");
}
VC_PROOF(index_subscr) {
    size_t n = vc::any_size(); vc_assume(n >= 1 && n <= (size_t(1) << 30));
    int* d = vc::array<int>(n);
    Direct c { d + n };
    struct Rev { int* d; ptrdiff_t n; int& operator()(int& r) { return r; } int& ref(ptrdiff_t k) { return d[n - 1 - k]; } };
    using It = core::IndexIterator<Direct, Reverse>;
    laws<It>(ptrdiff_t(n), [&](ptrdiff_t k) { return It(c, k); }, Rev { d, ptrdiff_t(n) });
    ptrdiff_t k = vc::any<ptrdiff_t>(); vc_assume(k >= 0 && k < ptrdiff_t(n));
    vc_check(It(c, k).operator->() == d + (n - 1 - size_t(k)), "pointer");
}
struct Proxy { int* p; explicit Proxy(int& r) : p(&r) {} };
struct Proxied { int* d; int& operator()(Proxy r) { return *r.p; } int& ref(ptrdiff_t k) { return d[k]; } };
VC_PROOF(proxy) {
    size_t n = vc::any_size(); vc_assume(n >= 1 && n <= (size_t(1) << 30));
    Direct c { vc::array<int>(n) };
    using In = core::IndexIterator<Direct>; using It = core::ProxyIterator<In, Proxy>;
    laws<It>(ptrdiff_t(n), [&](ptrdiff_t k) { return It(In(c, k)); }, Proxied { c.d });
}

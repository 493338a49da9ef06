// Reading and writing files: partial transfers, interruptions and failures of the system calls.
#include <cstddef>
#include <cerrno>
#include <limits>
#include <string>
#include <system_error>
#include <sstream>
#include <filesystem>
#include <iomanip>
#include <locale>
#include <chrono>
#include <memory>
#include <functional>
#include <algorithm>
#include <iostream>
#include <unistd.h>
#include <sys/syscall.h>
#define private public
#include <archon/core/file.hpp>
#include <archon/core/file.cpp>
#undef private
#include "vc.hpp"
using std::size_t;
// The system calls, as POSIX specifies them: any number of bytes, up to the requested number, may be transferred, or the call
// fails.  What has been transferred is recorded; each call must continue exactly where the preceding one ended.
struct Env { char* base; size_t size, done; int calls, limit; bool at_end, failed, zero; int err; };
static Env env;
static const int fd = 771177;
static ssize_t transfer(const void* p, size_t n, bool reading) {
    vc_check(!env.failed && !env.at_end, "no call after a failure or the end of input");
    vc_check(env.size == 0 || p == env.base + env.done, "transfer continues where the preceding one ended");
    vc_check(n <= env.size - env.done && (n > 0 || env.size == 0), "transfer stays inside the specified memory");
    if (env.limit > 0) vc_assume(env.calls++ < env.limit);
    unsigned char k = vc::any<unsigned char>();
    if (k == 0) { errno = EINTR; return -1; }
    if (k == 1) { env.err = vc::any<int>(); vc_assume(env.err != EINTR && env.err != 0); env.failed = true; errno = env.err; return -1; }
    size_t r = vc::any_size(); vc_assume(r <= n && r <= size_t(std::numeric_limits<ssize_t>::max()) && (n == 0 || r > 0 || reading));
    if (r == 0 && n > 0) env.at_end = true;
    if (n == 0) env.zero = true;
    env.done += r;
    return ssize_t(r);
}
extern "C" {
    ssize_t read(int f, void* p, size_t n) { if (f != fd) return syscall(SYS_read, f, p, n); return transfer(p, n, true); }
    ssize_t write(int f, const void* p, size_t n) { if (f != fd) return syscall(SYS_write, f, p, n); return transfer(p, n, false); }
}
#ifdef VC_PROVE
extern "C" int* __errno_location() noexcept { static int e; return &e; }
extern "C" long syscall(long, ...) noexcept { return -1; }
extern "C" int close(int) { return 0; }
namespace std { inline namespace _V2 { alignas(8) static char cat[8]; const error_category& system_category() noexcept { return reinterpret_cast<const error_category&>(cat); }
    alignas(8) static char gen[8]; const error_category& generic_category() noexcept { return reinterpret_cast<const error_category&>(gen); } } }
#endif
template<int limit> static void start(char*& d, size_t& n, core::File& f) {
    n = vc::any_size(); d = vc::array<char>(n);
    f.m_handle = fd; f.m_no_implicit_close = true;
    env.base = d; env.size = n; env.done = 0; env.calls = 0; env.limit = limit; env.at_end = env.failed = env.zero = false;
}
template<int limit, class F> static void check(F f, bool reading, bool all) {
    char* d; size_t n; core::File file; start<limit>(d, n, file);
    size_t m0 = vc::any_size(), m = m0; int e0 = vc::any<int>(); std::error_code ec(e0, std::generic_category());
    bool ok = f(file, d, n, m, ec);
    vc_check(ok == !env.failed, "fails exactly when a system call failed");
    if (ok) vc_check(ec.value() == e0 && ec.category() == std::generic_category(), "error code untouched");
    else vc_check(ec.value() == env.err && ec.category() == std::system_category(), "the error of the system call");
    if (all || ok) vc_check(m == env.done, "number of bytes transferred"); else vc_check(m == m0, "number untouched");
    if (all && ok) vc_check(m == n || (reading && env.at_end), "everything is transferred, unless the end of input is reached");
    if (!all && ok) vc_check(n == 0 || m > 0 || env.at_end, "something is transferred");
}
template<int limit> static void read_all() { check<limit>([](core::File& f, char* d, size_t n, size_t& m, std::error_code& ec) { return f.try_read(core::Span<char>(d, n), m, ec); }, true, true); }
template<int limit> static void write_all() { check<limit>([](core::File& f, char* d, size_t n, size_t& m, std::error_code& ec) { return f.try_write(core::StringSpan<char>(d, n), m, ec); }, false, true); }
template<int limit> static void read_some() { check<limit>([](core::File& f, char* d, size_t n, size_t& m, std::error_code& ec) { return f.try_read_some(core::Span<char>(d, n), m, ec); }, true, false); }
template<int limit> static void write_some() { check<limit>([](core::File& f, char* d, size_t n, size_t& m, std::error_code& ec) { return f.try_write_some(core::StringSpan<char>(d, n), m, ec); }, false, false); }
VC_PROOF(read_inv) /*: loops=inv */ { read_all<0>(); }
VC_PROOF(write_inv) /*: loops=inv */ { write_all<0>(); }
VC_PROOF(read_some_inv) /*: loops=inv */ { read_some<0>(); }
VC_PROOF(write_some_inv) /*: loops=inv */ { write_some<0>(); }
VC_PROOF(read_calls) /*: loops=unroll bounded=6 bound=at_most_5_system_calls */ { read_all<5>(); }
VC_PROOF(write_calls) /*: loops=unroll bounded=6 bound=at_most_5_system_calls */ { write_all<5>(); }
VC_PROOF(read_some_calls) /*: loops=unroll bounded=6 bound=at_most_5_system_calls */ { read_some<5>(); }
VC_PROOF(write_some_calls) /*: loops=unroll bounded=6 bound=at_most_5_system_calls */ { write_some<5>(); }

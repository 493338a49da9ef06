// Native runtime of the contract vocabulary: replays concrete inputs against the real code, and
// searches for failing inputs.  Compiled together with a contract translation unit.
#include <vc.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <fcntl.h>
#include <archon/core/terminate.hpp>

namespace vcn {
struct Log { volatile std::size_t n; volatile unsigned long iter; char label[512]; unsigned char data[1 << 22]; };
static Log* g_log;
struct Discard {};
struct Rep { char k; std::uint64_t v; std::vector<unsigned char> a; };
static std::vector<Rep> g_rep;
static std::size_t g_pos;
static bool g_replay;
static std::uint64_t g_s;
static unsigned g_style, g_sizestyle;
static std::vector<std::uint64_t> g_hist;
static std::vector<void*> g_arrays;
struct Reg { const char* name; void (*fn)(); };
static std::vector<Reg>& regs() { static std::vector<Reg> r; return r; }

static std::uint64_t rnd() { g_s += 0x9E3779B97F4A7C15ull; std::uint64_t z = g_s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static std::uint64_t draw(int w) {
    std::uint64_t m = w == 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << w) - 1;
    std::uint64_t v;
    unsigned c = rnd() % 10;
    if (g_style == 1 && c > 4) c = 0;
    if (g_style == 2 && c < 5) c = 5;
    if (g_style == 3 && c < 6 && !g_hist.empty()) c = 4;
    switch (c) {
        case 0: v = rnd() % 9; break;
        case 1: v = (std::uint64_t(1) << (rnd() % w)) + (rnd() % 5) - 2; break;
        case 2: v = 0 - (rnd() % 9); break;
        case 3: v = (std::uint64_t(1) << (rnd() % w)); if (rnd() & 1) v = 0 - v; v += (rnd() % 3) - 1; break;
        case 4: if (!g_hist.empty()) { v = g_hist[rnd() % g_hist.size()]; unsigned q = rnd() % 6; if (q == 0) v += 1; else if (q == 1) v -= 1; else if (q == 2) v = 0 - v; else if (q == 3) v = ~v; break; }
            [[fallthrough]];
        case 5: v = rnd(); break;
        case 6: v = rnd() >> (rnd() % 64); break;
        case 7: v = rnd() % 300; break;
        case 8: v = 0 - (rnd() >> (rnd() % 64)); break;
        default: v = rnd() % (w >= 21 ? 0x110000 : 256); break;
    }
    v &= m;
    if (g_hist.size() < 64) g_hist.push_back(v);
    return v;
}
static void logv(std::uint64_t v, int bytes) {
    std::size_t n = g_log->n;
    if (n + 16 < sizeof g_log->data) { g_log->data[n] = 'v'; g_log->data[n + 1] = bytes; std::memcpy(g_log->data + n + 2, &v, 8); g_log->n = n + 10; }
}
static std::uint64_t get(int w, bool size = false) {
    std::uint64_t v;
    if (g_pos < g_rep.size() && g_rep[g_pos].k == 'v') v = g_rep[g_pos++].v;
    else if (g_replay) v = 0;
    else if (size) {
        unsigned c = rnd() % 8;
        if (g_sizestyle == 0) v = rnd() % 4;
        else if (g_sizestyle == 1) v = rnd() % 9;
        else if (g_sizestyle == 2) v = rnd() % 40;
        else v = c < 6 ? rnd() % 70 : rnd() % 300;
    }
    else v = draw(w);
    if (w < 64) v &= (std::uint64_t(1) << w) - 1;
    logv(v, (w + 7) / 8);
    return v;
}
[[noreturn]] static void fail(const char* kind, const char* msg, int code) {
    std::snprintf(g_log->label, sizeof g_log->label, "%s%s", kind, msg);
    std::fflush(nullptr);
    _exit(code);
}
[[noreturn]] static void on_terminate() { fail("", "std::terminate called", 79); }
static void write_log(const char* path) {
    FILE* f = std::fopen(path, "w");
    if (!f) return;
    std::fprintf(f, "[");
    std::size_t i = 0; bool first = true;
    while (i < g_log->n) {
        if (!first) std::fprintf(f, ", ");
        first = false;
        std::uint64_t v; std::memcpy(&v, g_log->data + i + 2, 8);
        if (g_log->data[i] == 'v') { std::fprintf(f, "[\"v\", %llu, %d]", (unsigned long long)v, g_log->data[i + 1]); i += 10; }
        else {
            std::fprintf(f, "[\"a\", \""); i += 10;
            for (std::uint64_t j = 0; j < v; ++j) std::fprintf(f, "%02x", g_log->data[i + j]);
            std::fprintf(f, "\", %llu]", (unsigned long long)v); i += v;
        }
    }
    std::fprintf(f, "]\n");
    std::fclose(f);
}
static void one(void (*fn)()) {
    try { fn(); }
    catch (const Discard&) {}
    catch (const std::exception& e) { fail("uncaught exception: ", e.what(), 79); }
    catch (...) { fail("", "uncaught exception", 79); }
    for (void* p : g_arrays) std::free(p);
    g_arrays.clear();
}
}
using namespace vcn;
extern "C" {
    std::uint8_t vc_any8() { return get(8); }
    std::uint16_t vc_any16() { return get(16); }
    std::uint32_t vc_any32() { return get(32); }
    std::uint64_t vc_any64() { return get(64); }
    std::uint64_t vc_any_size() { return get(64, true); }
    bool vc_anybool() { return get(8) & 1; }
    static double frnd() {
        switch (rnd() % 9) {
            case 0: return 0; case 1: return 1; case 2: return double(rnd() % 1000) / 1000; case 3: return -double(rnd() % 5);
            case 4: return double(rnd() >> 11) / 9007199254740992.0; case 5: return double(rnd() % 70000) / (1 + rnd() % 300);
            case 6: return 0.5; case 7: return 1 + double(rnd() % 4) * 1e-9;
            default: { std::uint64_t b = rnd(); double d; std::memcpy(&d, &b, 8); return d; } }
    }
    float vc_anyfloat() {
        float f; std::uint32_t b;
        if (g_pos < g_rep.size() || g_replay) { b = get(32); std::memcpy(&f, &b, 4); return f; }
        f = float(frnd()); std::memcpy(&b, &f, 4); logv(b, 4); return f;
    }
    double vc_anydouble() {
        double f; std::uint64_t b;
        if (g_pos < g_rep.size() || g_replay) { b = get(64); std::memcpy(&f, &b, 8); return f; }
        f = frnd(); std::memcpy(&b, &f, 8); logv(b, 8); return f;
    }
    static void fill_array(unsigned char* p, std::size_t size, std::size_t es) {
        if (g_pos < g_rep.size() && g_rep[g_pos].k == 'a') {
            auto& a = g_rep[g_pos++].a;
            for (std::size_t i = 0; i < size; ++i) p[i] = i < a.size() ? a[i] : 0;
        }
        else if (g_replay) std::memset(p, 0, size);
        else {
            unsigned mode = rnd() % 4;
            unsigned lo = rnd() % 256, span = 1 + rnd() % 8;
            for (std::size_t i = 0; i + es <= size; i += es) {
                std::uint64_t v = mode == 0 ? rnd() : mode == 1 ? lo + rnd() % span : draw(es >= 8 ? 64 : int(8 * es));
                if (es <= 8) std::memcpy(p + i, &v, es);
                else for (std::size_t j = 0; j < es; ++j) p[i + j] = rnd();
            }
        }
        std::size_t n = g_log->n;
        if (n + 10 + size < sizeof g_log->data) {
            g_log->data[n] = 'a'; std::uint64_t v = size; std::memcpy(g_log->data + n + 2, &v, 8);
            std::memcpy(g_log->data + n + 10, p, size); g_log->n = n + 10 + size;
        }
    }
    void* vc_any_array(std::size_t size, std::size_t es) {
        if (size > (1u << 20)) throw Discard();
        unsigned char* p = static_cast<unsigned char*>(std::malloc(size));
        g_arrays.push_back(p);
        fill_array(p, size, es);
        return p;
    }
    void* vc_any_heap(std::size_t size, std::size_t es) {
        if (size > (1u << 20)) throw Discard();
        unsigned char* p = new unsigned char[size];
        fill_array(p, size, es);
        return p;
    }
    void vc_assume(bool c) { if (!c) throw Discard(); }
    void vc_check(bool c, const char* label) { if (!c) fail("ensures: ", label, 77); }
    void vc_cover(const char*) {}
    bool vc_symbolic() { return false; }
    std::size_t vc_bound() { return 0; }
    void vc_watch(const void*, std::size_t) {}
    void vc_hint64(std::uint64_t) {}
    void vc_fact(bool) {}
    void vc_native_register(const char* name, void (*fn)()) { regs().push_back({ name, fn }); }
    const char* __asan_default_options() { return "detect_leaks=0:exitcode=76:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=512:allow_user_segv_handler=0"; }
    const char* __ubsan_default_options() { return "exitcode=75:print_stacktrace=0"; }
}
namespace archon::core {
[[noreturn]] void impl::do_terminate(const char* message, const char*, long, Span<const impl::TerminateVal2>) noexcept { fail("assertion: ", message, 78); }
}
int main(int argc, char** argv) {
    // prog PROOF replay FILE | prog PROOF search SEED SECONDS OUT
    if (argc < 3) { for (auto& r : regs()) std::puts(r.name); return 2; }
    void (*fn)() = nullptr;
    for (auto& r : regs()) if (!std::strcmp(r.name, argv[1])) fn = r.fn;
    if (!fn) { std::fprintf(stderr, "no such proof\n"); return 2; }
    std::set_terminate(on_terminate);
    g_log = static_cast<Log*>(mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (!std::strcmp(argv[2], "replay")) {
        FILE* f = std::fopen(argv[3], "r");
        if (!f) return 2;
        // lines: v VALUE | a HEX
        std::vector<char> buf(1 << 22);
        while (std::fgets(buf.data(), int(buf.size()), f)) {
            Rep r; r.k = buf[0]; r.v = 0;
            if (r.k == 'v') r.v = std::strtoull(buf.data() + 2, nullptr, 10);
            else if (r.k == 'a') { for (char* p = buf.data() + 2; p[0] > ' ' && p[1] > ' '; p += 2) { char h[3] = { p[0], p[1], 0 }; r.a.push_back((unsigned char)std::strtoul(h, nullptr, 16)); } }
            else continue;
            g_rep.push_back(r);
        }
        std::fclose(f);
        g_replay = true;
        g_s = 1;
        pid_t p = fork();
        if (p == 0) { const char* al = std::getenv("VC_ALARM"); alarm(al ? unsigned(std::atoi(al)) : 30); one(fn); std::fflush(nullptr); _exit(0); }
        int st = 0; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { std::puts("REPLAY ok"); return 0; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) std::snprintf(g_log->label, 512, "does not terminate within 30 s");
        std::printf("REPLAY failed: %s (%s %d)\n", g_log->label[0] ? g_log->label : "crash / sanitizer report", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
        return 1;
    }
    std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
    double secs = std::atof(argv[4]);
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    unsigned long iters = 0;
    pid_t p = fork();
    if (p == 0) {
        for (unsigned long it = 0;; ++it) {
            if ((it & 15) == 0) {
                timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
                if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
                alarm(20);
            }
            g_log->n = 0; g_log->iter = it;
            g_s = seed * 0x2545F4914F6CDD1Dull + it * 0x9E6C63D0876A9A47ull;
            rnd();
            g_style = rnd() % 6; g_sizestyle = rnd() % 4; g_hist.clear(); g_pos = 0;
            one(fn);
        }
        std::fflush(nullptr); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    iters = g_log->iter;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { std::printf("SEARCH ok iterations %lu\n", iters); return 0; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) std::snprintf(g_log->label, 512, "does not terminate within 20 s");
    write_log(argv[5]);
    std::printf("SEARCH failed at iteration %lu: %s (%s %d)\n", iters, g_log->label[0] ? g_log->label : "crash / sanitizer report", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
    return 1;
}

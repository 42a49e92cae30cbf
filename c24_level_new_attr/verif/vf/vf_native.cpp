// Native runtime for contracts: replays a recorded input sequence or searches for a failing one.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <vector>
#include <string>
#include <unistd.h>
#include <sys/time.h>
#include <fcntl.h>
static std::vector<uint64_t> g_in; static size_t g_pos; static bool g_random; static uint64_t g_rng; static jmp_buf g_jmp;
static std::vector<uint64_t> g_used; static const char* g_out = nullptr; static unsigned long g_rejected, g_runs; static int g_mode;
static char g_fail[512];
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 2685821657736338717ull; }
static void dump(const char* why)
{
    if (!g_out) return;
    FILE* f = fopen(g_out, "w"); if (!f) return;
    fprintf(f, "# %s\n", why);
    for (uint64_t v : g_used) fprintf(f, "%llu\n", (unsigned long long) v);
    fclose(f);
}
static uint64_t pick(int w)
{
    if (!g_random) { uint64_t v = g_pos < g_in.size() ? g_in[g_pos] : 0; ++g_pos; g_used.push_back(v); return v; }
    uint64_t v;
    if (g_mode == 1 && g_pos < g_in.size() && rnd() % 8) { v = g_in[g_pos]; }  // mutate a seed
    else switch (rnd() % 10) {
        case 0: v = 0; break;
        case 1: v = rnd() % 4; break;
        case 2: v = rnd() % 16; break;
        case 3: v = rnd() % 256; break;
        case 4: v = 1ull << (rnd() % 64); break;
        case 5: v = (1ull << (rnd() % 64)) - (rnd() % 3); break;
        case 6: v = ~0ull - (rnd() % 4); break;
        case 7: { static const double ds[] = { 0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 1e10, -1e10, 3.0, 4.5, 1e-310, 4294967296.0, 9.3e18, 1.9e19 }; double d = ds[rnd() % 15]; memcpy(&v, &d, 8); break; }
        case 8: v = g_used.empty() ? rnd() : g_used[rnd() % g_used.size()] + (rnd() % 3) - 1; break;
        default: v = rnd();
    }
    if (w < 64) v &= (1ull << w) - 1;
    ++g_pos;
    g_used.push_back(v);
    return v;
}
extern "C" {
uint64_t vf_nd_u64(void) { return pick(64); }
uint32_t vf_nd_u32(void) { return (uint32_t) pick(32); }
uint16_t vf_nd_u16(void) { return (uint16_t) pick(16); }
uint8_t vf_nd_u8(void) { return (uint8_t) pick(8); }
bool vf_nd_bool(void) { return pick(1) & 1; }
double vf_nd_double(void) { uint64_t v = pick(64); double d; memcpy(&d, &v, 8); return d; }
uint64_t vf_nd_below(uint64_t n)
{
    if (n == 0) { ++g_rejected; longjmp(g_jmp, 1); }
    if (!g_random) { uint64_t v = pick(64); if (v >= n) { ++g_rejected; longjmp(g_jmp, 1); } return v; }
    uint64_t v = (g_mode == 1 && g_pos < g_in.size() && g_in[g_pos] < n && rnd() % 8) ? g_in[g_pos] : (rnd() % 6 == 0 ? n - 1 - (rnd() % 2) % n : rnd() % n);
    ++g_pos; g_used.push_back(v); return v;
}
void vf_assume(bool c) { if (!c) { ++g_rejected; longjmp(g_jmp, 1); } }
void vf_check(bool c, const char* name)
{
    if (c) return;
    snprintf(g_fail, sizeof g_fail, "obligation violated: %s", name);
    dump(g_fail);
    printf("NATIVE-FAIL %s\n", g_fail); fflush(stdout);
    _exit(42);
}
void vf_reach(const char*) {}
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1:detect_container_overflow=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:alloc_dealloc_mismatch=0"; }
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=44:print_stacktrace=0"; }
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
}
static void on_death() { dump("sanitizer report"); }
static void on_sig(int s) { char b[64]; snprintf(b, sizeof b, "signal %d", s); dump(b); printf("NATIVE-FAIL %s\n", b); fflush(stdout); _exit(45); }
static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
int main(int argc, char** argv)
{
    // usage: prog ENTRY replay FILE | prog ENTRY search SEED SECONDS OUT [SEEDFILE]
    if (argc < 4) return 2;
    typedef void (*fn_t)(void);
    std::string sym = std::string("contract_") + argv[1];
    fn_t fn = (fn_t) dlsym(RTLD_DEFAULT, sym.c_str());
    if (!fn) { fprintf(stderr, "no such contract %s\n", argv[1]); return 2; }
    signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig); signal(SIGBUS, on_sig); signal(SIGALRM, on_sig);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    auto load = [](const char* f) { FILE* fp = fopen(f, "r"); char b[256]; if (!fp) return; while (fgets(b, sizeof b, fp)) if (b[0] != '#') g_in.push_back(strtoull(b, 0, 10)); fclose(fp); };
    if (!strcmp(argv[2], "replay")) {
        load(argv[3]);
        if (argc > 4) g_out = argv[4];
        alarm(20);
        if (setjmp(g_jmp)) { printf("NATIVE-REJECTED precondition not met\n"); return 3; }
        fn();
        printf("NATIVE-OK\n");
        return 0;
    }
    g_random = true; g_rng = strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    double end = now() + atof(argv[4]); if (argc > 5) g_out = argv[5];
    if (argc > 6) { load(argv[6]); if (!g_in.empty()) g_mode = 1; }
    volatile unsigned long runs = 0;
    int mode0 = g_mode;
    while (now() < end) {
        for (int k = 0; k < 64; ++k) {
            g_pos = 0; g_used.clear(); g_mode = mode0 && (rnd() & 1);
            ++runs; alarm(10);
            if (setjmp(g_jmp) == 0) fn();
        }
    }
    alarm(0);
    printf("NATIVE-SEARCH runs=%lu rejected=%lu\n", (unsigned long) runs, g_rejected);
    return 0;
}

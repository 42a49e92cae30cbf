#include "variant.h"
#include "common/CompressedSnapshotRecord.cpp"
// the internal overlapping move: any length up to the buffer size, any distance up to 64 bytes upwards
static const unsigned N = 576;
static unsigned char* g_buf; static uint64_t g_s, g_d, g_len, g_i; static unsigned char g_vi, g_vo; static uint64_t g_o;
extern "C" bool inv_move(uint64_t len)
{
    // bytes at offsets >= len are moved, lower ones still hold the source; bytes outside the destination unchanged
    return len <= g_len && (g_len - len) % 1 == 0 && (g_i >= len ? g_buf[g_d + g_i] == g_vi : g_buf[g_s + g_i] == g_vi)
        && g_buf[g_o] == g_vo;
}
extern "C" void havoc_move(uint64_t) { for (unsigned i = 0; i < N; ++i) g_buf[i] = ND_U8(); }
CONTRACT(memmove_up)
{
    unsigned char buf[N];
    for (unsigned i = 0; i < N; ++i) buf[i] = ND_U8();
    g_buf = buf; g_len = ND_BELOW(N); g_s = ND_BELOW(N); g_d = g_s + ND_BELOW(65); REQUIRES(g_d + g_len <= N);
    g_i = ND_BELOW(N); REQUIRES(g_i < g_len); g_o = ND_BELOW(N); REQUIRES(g_o < g_d || g_o >= g_d + g_len);
    g_vi = buf[g_s + g_i]; g_vo = buf[g_o];
    void* r = ::save_memmove(buf + g_d, buf + g_s, g_len);
    ENSURES(r == buf + g_d, "returns the destination");
    ENSURES(buf[g_d + g_i] == g_vi, "every byte of the source arrives, overlap included");
    ENSURES(buf[g_o] == g_vo, "no byte outside the destination changes");
    REACH("end");
}

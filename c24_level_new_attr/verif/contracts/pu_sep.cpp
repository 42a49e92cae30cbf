// separators: a character is one of a list of any length exactly if the list contains it
#include "vf.h"
#ifndef VF_NATIVE
#include <string>
#include <cstdlib>
#include "common/util/parse_util.h"
using namespace cali;
static char* g_s; static uint64_t g_n, g_k, g_at; static char g_c;
static inline uint64_t off(const char* p) { return (uint64_t) p - (uint64_t) g_s; }
extern "C" bool vf_inv_sep(const char* p) { const uint64_t i = off(p); return i < g_n && (i <= g_k || (g_s[g_k] != g_c && g_s[g_k])) && g_s[g_n - 1] == 0; }
extern "C" const char* vf_ptr_sep() { const uint64_t i = ND_BELOW(1ull << 40); REQUIRES(i < g_n); g_at = i; return g_s + i; }
CONTRACT(separator)
{
    g_n = 1 + ND_BELOW((1ull << 40) - 1); g_s = (char*) malloc(g_n); g_s[g_n - 1] = 0; g_k = ND_BELOW(1ull << 40); REQUIRES(g_k < g_n); g_c = (char) ND_U8();
    if (g_n == 7) { (void) vf_inv_sep(g_s); (void) vf_ptr_sep(); }
    // g_k: any position
    const bool r = util::is_one_of(g_c, g_s);
    ENSURES(r ? g_s[g_at] == g_c && g_c : !g_s[g_at], "the search ends at the character or at the end of the list");
    ENSURES(g_k >= g_at || (g_s[g_k] && g_s[g_k] != g_c), "no position before that holds the character or ends the list"); REACH("end");
}
CONTRACT(separator_few)
{
    static char s[6]; for (unsigned i = 0; i < 5; ++i) s[i] = (char) ND_U8(); const char c = (char) ND_U8(); bool x = false; for (unsigned i = 0; i < 5 && s[i]; ++i) if (s[i] == c) x = true;
    ENSURES(util::is_one_of(c, s) == x, "a character is one of a list exactly if the list contains it"); REACH("end");
}
#endif

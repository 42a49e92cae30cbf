// the scanner under the .cali reader never leaves its line, whatever the bytes
#include "vf.h"
#ifndef VF_NATIVE
#include "reader/CaliReader.cpp"
using namespace cali;
static char* g_b; static uint64_t g_n; static fast_istringstream* g_is; static uint64_t g_start;
struct raw { char* it; char* end; };
static inline raw* R() { return (raw*) g_is; }
extern "C" bool vf_inv_num() { return R()->end == g_b + g_n && R()->it >= g_b + g_start && R()->it <= g_b + g_n; }
extern "C" void vf_havoc_num() { uint64_t p = ND_BELOW(g_n + 1); R()->it = g_b + p; R()->end = g_b + g_n; }
static inline fast_istringstream line(uint64_t pos) { return fast_istringstream(std::string::iterator(g_b + pos), std::string::iterator(g_b + g_n)); }
CONTRACT(scan_number)
{
    g_n = ND_BELOW(1ull << 40); g_b = (char*) malloc(g_n + 1); g_start = ND_BELOW(g_n + 1); fast_istringstream is = line(g_start); g_is = &is; if (g_n == 3) { (void) vf_inv_num(); vf_havoc_num(); R()->it = g_b + g_start; }
    (void) read_uint64_element(is);
    ENSURES(R()->end == g_b + g_n && R()->it >= g_b + g_start && R()->it <= g_b + g_n, "reading a number stays in the line"); if (is.good()) ENSURES(*R()->it == ',' || *R()->it == '=', "reading a number ends at a separator or the end of the line"); REACH("end");
}
CONTRACT(scan_number_small)
{
    static char b[8]; g_b = b; g_n = ND_BELOW(5); g_start = ND_BELOW(g_n + 1); for (int i = 0; i < 4; ++i) b[i] = (char) ND_U8(); fast_istringstream is = line(g_start); g_is = &is; (void) read_uint64_element(is);
    ENSURES(R()->end == g_b + g_n && R()->it >= g_b + g_start && R()->it <= g_b + g_n, "reading a number stays in the line"); REACH("end");
}
// keys are recognised only where they are, without reading past the end
CONTRACT(scan_key)
{
    g_n = ND_BELOW(1ull << 40); g_b = (char*) malloc(g_n + 1); uint64_t p = ND_BELOW(g_n + 1); fast_istringstream is = line(p); g_is = &is;
    static const char key[16] = "__rec=globals,"; uint64_t n = 1 + ND_BELOW(14); bool eq = n <= g_n - p; for (uint64_t i = 0; i < 14; ++i) if (i < n && eq && g_b[p + i] != key[i]) eq = false;
    bool m = is.matches(n, key); ENSURES(m == eq, "a key is recognised exactly where the line has it"); ENSURES(R()->it == g_b + p + (m ? n : 0) && R()->end == g_b + g_n, "a recognised key is consumed, anything else is left");
    const char c = (char) ND_U8(); char* at = R()->it; const bool here = at != g_b + g_n && *at == c; ENSURES(is.matches(c) == here && R()->it == at + here, "a separator is recognised exactly where it is"); ENSURES(is.good() == (R()->it != g_b + g_n), "the end of the line is recognised"); REACH("end");
}
#endif

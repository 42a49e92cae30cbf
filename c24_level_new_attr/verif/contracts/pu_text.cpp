// the readers of configuration and query text: words, nested text, and single characters are split off a stream exactly where the text says, for any text of any length
#include "vf.h"
#ifndef VF_NATIVE
#include "common/util/parse_util.cpp"
using namespace cali;
// trusted model of std::istream over a buffer: get, unget, and good as the C++ standard defines them
static char* g_b; static uint64_t g_n, g_pos; static bool g_bad;
extern "C" int32_t vf_model___ZNSi3getEv(void*) { if (g_bad || g_pos >= g_n) { g_bad = true; return -1; } return (unsigned char) g_b[g_pos++]; }
extern "C" void* vf_model___ZNSi5ungetEv(void* is) { if (!g_bad) { ENSURES(g_pos > 0, "a character is put back only after one was read"); --g_pos; } return is; }
extern "C" bool vf_model___ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv(const void*) { return !g_bad; }
// trusted model of the result string: what is appended
static unsigned g_push; static char g_out[2];
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1Ev(void*) { g_push = 0; }
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2Ev(void*) { g_push = 0; }
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED1Ev(void*) {}
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED2Ev(void*) {}
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9push_backEc(void*, char c) { if (g_push < 2) g_out[g_push] = c; ++g_push; }
// the separators: any set of characters (is_one_of has its own contract)
static bool g_sep[256];
extern "C" bool vf_model___ZN4cali4util9is_one_ofEcPKc(char c, const char*) { return g_sep[(unsigned char) c]; }
static inline bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static uint64_t g_prev; static bool g_esc, g_bad0; static int g_phase;
static void* g_vt[4]; static struct { void** vptr; } g_is = { g_vt + 3 };
static inline std::istream& stream(uint64_t max)
{
    g_n = ND_BELOW(max); g_b = (char*) malloc(g_n + 1); g_pos = g_prev = ND_BELOW(max); REQUIRES(g_pos <= g_n); g_bad = g_bad0 = ND_BOOL(); g_phase = 0; g_push = 0; g_esc = false;
    return *(std::istream*) &g_is;
}
// leading white space
extern "C" bool vf_inv_ws() { return (g_pos == g_prev && (!g_bad || g_bad0)) || (!g_bad && !g_bad0 && g_prev < g_n && g_pos == g_prev + 1 && sp(g_b[g_prev])); }
extern "C" void vf_havoc_ws() { g_prev = g_pos = ND_BELOW(g_n + 1); g_bad = g_bad0; }
static inline bool ws_done(char c) { return g_bad ? g_bad0 || (g_prev == g_n && g_pos == g_n) : g_prev < g_n && g_pos == g_prev + 1 && !sp(g_b[g_prev]) && c == g_b[g_prev]; }
// one word
extern "C" bool vf_inv_word(uint8_t esc)
{
    if (esc > 1 || g_pos > g_n) return false;
    if (g_phase == 0) return !esc && g_push == 0 && (g_bad ? g_bad0 || (g_prev == g_n && g_pos == g_n) : g_pos == g_prev && g_prev < g_n && !sp(g_b[g_prev]));
    if (g_pos == g_prev) return g_push == 0 && (bool) esc == g_esc && (g_bad ? g_bad0 || g_pos == g_n : !g_bad0);
    if (g_prev >= g_n || g_bad0) return false;
    const char c = g_b[g_prev];
    if (c == '\\') return (bool) esc == g_esc && (g_prev + 1 < g_n ? !g_bad && g_pos == g_prev + 2 && g_push == 1 && g_out[0] == g_b[g_prev + 1] : g_bad && g_pos == g_n && g_push == 0);
    if (g_bad || g_pos != g_prev + 1) return false;
    if (c == '"') return g_push == 0 && (bool) esc != g_esc;
    return (g_esc || !(sp(c) || g_sep[(unsigned char) c])) && (bool) esc == g_esc && g_push == 1 && g_out[0] == c;
}
extern "C" void vf_havoc_word(uint8_t esc) { g_phase = 1; g_prev = g_pos = ND_BELOW(g_n + 1); g_bad = ND_BOOL(); g_esc = esc; g_push = 0; }
static inline void seps() { for (unsigned i = 0; i < 256; ++i) g_sep[i] = ND_BOOL(); }
CONTRACT(text_read_word)
{
    std::istream& is = stream(1ull << 40); const unsigned a = ND_U8(), b = ND_U8(), c = ND_U8(), d = ND_U8(); g_sep[a] = g_sep[b] = g_sep[c] = g_sep[d] = true;
    if (g_n == 7 && ND_BOOL()) { (void) vf_inv_ws(); (void) vf_inv_word(0); vf_havoc_ws(); vf_havoc_word(0); }
    REQUIRES(g_phase == 0);
    (void) util::read_word(is, "");
    ENSURES(g_push == 0 && g_pos == g_prev, "everything read belongs to the word");
    ENSURES(g_bad ? g_bad0 || g_pos == g_n : g_pos < g_n && !g_esc && (sp(g_b[g_pos]) || g_sep[(unsigned char) g_b[g_pos]]), "a word ends at the first white space or separator outside quotes that is not escaped, which is left to read, or at the end of the text");
    REACH("end");
}
CONTRACT(text_read_char)
{
    std::istream& is = stream(1ull << 40); if (g_n == 7 && ND_BOOL()) { (void) vf_inv_ws(); vf_havoc_ws(); }
    const char c = util::read_char(is); ENSURES(ws_done(c), "reads the first character that is not white space and nothing more"); REACH("end");
}
// text in parentheses
static char g_open, g_close; static int32_t g_depth;
extern "C" bool vf_inv_nested(uint8_t esc, int32_t depth)
{
    if (esc > 1 || g_pos > g_n || depth < 1) return false;
    if (g_pos == g_prev) return g_push == 0 && (bool) esc == g_esc && depth == g_depth && (uint64_t) depth <= g_pos + 1 && (g_bad ? g_bad0 || g_pos == g_n : !g_bad0);
    if (g_prev >= g_n || g_bad0) return false;
    const char c = g_b[g_prev];
    if (c == '\\') return (bool) esc == g_esc && depth == g_depth && (g_prev + 1 < g_n ? !g_bad && g_pos == g_prev + 2 && g_push == 2 && g_out[0] == '\\' && g_out[1] == g_b[g_prev + 1] : g_bad && g_pos == g_n && g_push == 0);
    if (g_bad || g_pos != g_prev + 1 || g_push != 1 || g_out[0] != c) return false;
    if (c == '"') return (bool) esc != g_esc && depth == g_depth;
    return (bool) esc == g_esc && depth == g_depth + (g_esc ? 0 : c == g_open ? 1 : c == g_close ? -1 : 0);
}
extern "C" void vf_havoc_nested(uint8_t esc, int32_t depth) { g_prev = g_pos = ND_BELOW(g_n + 1); g_bad = ND_BOOL(); g_esc = esc; g_depth = depth; g_push = 0; }
CONTRACT(text_read_nested)
{
    std::istream& is = stream(1ull << 30); g_open = (char) ND_U8(); g_close = (char) ND_U8(); g_depth = 1;
    REQUIRES(g_open != g_close && g_open > ' ' && g_open != '\\' && g_open != '"' && g_close > ' ' && g_close != '\\' && g_close != '"');
    if (g_n == 7 && ND_BOOL()) { (void) vf_inv_nested(0, 1); vf_havoc_nested(0, 1); } REQUIRES(g_pos == g_prev && g_bad == g_bad0);
    (void) util::read_nested_text(is, g_open, g_close);
    ENSURES(g_push == 0 && g_pos == g_prev, "everything read belongs to the text");
    ENSURES(g_bad ? g_bad0 || g_pos == g_n : g_pos < g_n && !g_esc && g_depth == 1 && g_b[g_pos] == g_close, "nested text ends at the matching closing character outside quotes, which is left to read, or at the end");
    REACH("end");
}
// the same contracts with the loops unrolled, for texts of at most 3 characters
CONTRACT(text_read_word_few)
{
    static char b[8]; g_b = b; g_n = ND_BELOW(4); g_pos = 0; g_bad = false; const unsigned a = ND_U8(); g_sep[a] = true; for (unsigned i = 0; i < 3; ++i) b[i] = (char) ND_U8(); REQUIRES(a != '\\' && a != '"');
    (void) util::read_word(*(std::istream*) &g_is, "");
    uint64_t p = 0; while (p < g_n && sp(b[p])) ++p; bool esc = false; unsigned n = 0; char out[2] = { 0, 0 }; bool bad = p == g_n;
    while (!bad) { if (p == g_n) { bad = true; break; } const char c = b[p]; if (c == '\\') { if (p + 1 == g_n) { ++p; bad = true; break; } if (n < 2) out[n] = b[p + 1]; ++n; p += 2; } else if (c == '"') { esc = !esc; ++p; } else if (!esc && (sp(c) || (unsigned char) c == a)) break; else { if (n < 2) out[n] = c; ++n; ++p; } }
    ENSURES(g_bad == bad && g_pos == p, "a word ends where the text says"); ENSURES(g_push == n && (n < 1 || g_out[0] == out[0]) && (n < 2 || g_out[1] == out[1]), "a word is what the text says"); REACH("end");
}
CONTRACT(text_read_char_few)
{
    static char b[8]; g_b = b; g_n = ND_BELOW(4); g_pos = 0; g_bad = false; for (unsigned i = 0; i < 3; ++i) b[i] = (char) ND_U8(); const char r = util::read_char(*(std::istream*) &g_is);
    uint64_t p = 0; while (p < g_n && sp(b[p])) ++p; ENSURES(p == g_n ? g_bad : !g_bad && r == b[p] && g_pos == p + 1, "reads the first character that is not white space and nothing more"); REACH("end");
}
CONTRACT(text_read_nested_few)
{
    static char b[8]; g_b = b; g_n = ND_BELOW(4); g_pos = 0; g_bad = false; for (unsigned i = 0; i < 3; ++i) b[i] = (char) ND_U8(); (void) util::read_nested_text(*(std::istream*) &g_is, '(', ')');
    uint64_t p = 0; int depth = 1; bool esc = false, bad = false; unsigned n = 0;
    while (true) { if (p == g_n) { bad = true; break; } const char c = b[p]; if (c == '\\') { if (p + 1 == g_n) { ++p; bad = true; break; } n += 2; p += 2; continue; } if (c == '"') esc = !esc; else if (!esc && c == '(') ++depth; else if (!esc && c == ')') --depth; if (!depth) break; ++p; ++n; }
    ENSURES(g_bad == bad && g_pos == p && g_push == n, "nested text ends where the text says"); REACH("end");
}
#endif

// the .cali text layer: numbers and words are written so that the reader recovers them exactly and stops where they end
#include "vf.h"
#ifndef VF_NATIVE
#include "reader/CaliReader.cpp"
#include "common/util/format_util.h"
using namespace cali;
// decoder for one written word, as the format defines it: backslash escapes the next character, \n is a newline, '=' ',' and the end of the line end the word
struct Dec { bool esc, bad; unsigned n; char out; };
static inline void dec(Dec& d, char c) { if (c == '\n') d.bad = true; if (d.esc) { d.out = c == 'n' ? '\n' : c; ++d.n; d.esc = false; } else if (c == '=' || c == ',') d.bad = true; else if (c == '\\') d.esc = true; else { d.out = c; ++d.n; } }
static inline bool kept(char c) { return (unsigned char) c >= 0x20 || c == '\n'; }
static Dec g_d; static const char* g_s; static uint64_t g_n, g_prev; static bool g_json;
static inline void reset() { g_d.esc = g_d.bad = false; g_d.n = 0; g_d.out = 0; }
static inline void decj(Dec& d, char c) { if ((unsigned char) c < 0x20) d.bad = true; if (d.esc) { d.out = c == 'n' ? '\n' : c; if (c != 'n' && c != '\\' && c != '"') d.bad = true; ++d.n; d.esc = false; } else if (c == '"') d.bad = true; else if (c == '\\') d.esc = true; else { d.out = c; ++d.n; } }
extern "C" void* vf_model___ZNSo3putEc(void* os, char c) { if (g_json) decj(g_d, c); else dec(g_d, c); return os; }
// loop contract: what one iteration writes decodes to the character at its position, or to nothing if it is dropped
extern "C" bool vf_inv_esc(uint64_t i)
{
    if (i > g_n) return false;
    if (i == g_prev) return !g_d.esc && !g_d.bad && g_d.n == 0;
    return i == g_prev + 1 && !g_d.esc && !g_d.bad && (kept(g_s[g_prev]) ? g_d.n == 1 && g_d.out == g_s[g_prev] : g_d.n == 0);
}
extern "C" void vf_havoc_esc(uint64_t i) { g_prev = i; reset(); }
static inline void escape(bool json)
{
    g_n = ND_BELOW(1ull << 40); char* buf = (char*) malloc(g_n + 1); g_s = buf; g_json = json; g_prev = 0; reset();
    if (g_n == 7) (void) vf_inv_esc(0), vf_havoc_esc(0);
    static char osbuf[sizeof(std::ostream)]; std::ostream& os = *(std::ostream*) osbuf;
    if (json) util::write_json_esc_string(os, buf, g_n); else util::write_cali_esc_string(os, buf, g_n);
    ENSURES(!g_d.esc && !g_d.bad, "the written word is complete"); REACH("end");
}
CONTRACT(cali_escape) { escape(false); }
CONTRACT(json_escape) { escape(true); }
static inline void escape_few(bool json)
{
    static char buf[4]; uint64_t n = ND_BELOW(2); buf[0] = (char) ND_U8(); g_json = json; reset(); static char osbuf[sizeof(std::ostream)]; std::ostream& os = *(std::ostream*) osbuf;
    if (json) util::write_json_esc_string(os, buf, n); else util::write_cali_esc_string(os, buf, n);
    ENSURES(!g_d.esc && !g_d.bad && (n == 1 && kept(buf[0]) ? g_d.n == 1 && g_d.out == buf[0] : g_d.n == 0), "the written character decodes to itself"); REACH("end");
}
CONTRACT(cali_escape_one) { escape_few(false); }
CONTRACT(json_escape_one) { escape_few(true); }
// reading a word: for a line of any bytes and length, each character read adds what the format says, up to the first separator that is not escaped
struct LineRaw { char* it; char* end; };
static char* g_wb; static uint64_t g_wn, g_wprev; static bool g_wesc; static unsigned g_wpush; static char g_wout; static fast_istringstream* g_wis;
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1Ev(void*) { g_wpush = 0; }
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED1Ev(void*) {}
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7reserveEm(void*, uint64_t) {}
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9push_backEc(void*, char c) { ++g_wpush; g_wout = c; }
extern "C" bool vf_inv_word(uint8_t esc)
{
    LineRaw* r = (LineRaw*) g_wis; if (r->end != g_wb + g_wn || esc > 1) return false;
    if (r->it == g_wb + g_wprev) return g_wpush == 0 && (bool) esc == g_wesc;
    if (g_wprev >= g_wn || r->it != g_wb + g_wprev + 1) return false;
    const char c = g_wb[g_wprev]; if (g_wesc) return g_wpush == 1 && g_wout == (c == 'n' ? '\n' : c) && !esc;
    if (c == '\\') return g_wpush == 0 && esc; return c != '=' && c != ',' && g_wpush == 1 && g_wout == c && !esc;
}
extern "C" void vf_havoc_word(uint8_t esc) { LineRaw* r = (LineRaw*) g_wis; g_wprev = ND_BELOW(g_wn + 1); r->it = g_wb + g_wprev; r->end = g_wb + g_wn; g_wesc = esc; g_wpush = 0; }
CONTRACT(read_word)
{
    g_wn = ND_BELOW(1ull << 40); g_wb = (char*) malloc(g_wn + 1); const uint64_t p = ND_BELOW(g_wn + 1); g_wprev = p; g_wesc = false; g_wpush = 0; fast_istringstream is(std::string::iterator(g_wb + p), std::string::iterator(g_wb + g_wn)); g_wis = &is;
    if (g_wn == 7) { (void) vf_inv_word(0); vf_havoc_word(0); ((LineRaw*) &is)->it = g_wb + p; g_wprev = p; g_wesc = false; }
    (void) read_escaped_word(is); LineRaw* r = (LineRaw*) &is;
    ENSURES(r->end == g_wb + g_wn && (r->it == r->end || (r->it == g_wb + g_wprev && !g_wesc && g_wpush == 0 && (*r->it == '=' || *r->it == ','))), "reading a word stops at the first separator that is not escaped, or at the end of the line"); REACH("end");
}
CONTRACT(read_word_few)
{
    static char b[8]; g_wb = b; g_wn = ND_BELOW(2); b[0] = (char) ND_U8(); fast_istringstream is(std::string::iterator(b), std::string::iterator(b + g_wn)); (void) read_escaped_word(is); const bool sep = b[0] == ',' || b[0] == '=';
    ENSURES(g_wpush == (g_wn && !sep && b[0] != '\\' ? 1u : 0u) && (g_wpush == 0 || g_wout == b[0]) && is.good() == (g_wn && sep), "a word of one character"); REACH("end");
}
// decimal numbers
static char g_buf[32]; static uint64_t g_len;
extern "C" void* vf_model___ZNSo5writeEPKcl(void* os, const char* p, int64_t n) { ENSURES(n >= 1 && n <= 20, "a number has 1 to 20 digits"); g_len = n; for (int64_t i = 0; i < n; ++i) { g_buf[i] = p[i]; ENSURES(p[i] >= '0' && p[i] <= '9', "a number is digits only"); } return os; }
CONTRACT(uint_roundtrip)
{
    const uint64_t v = ND_BELOW(100000); static char osbuf[sizeof(std::ostream)]; std::ostream& os = *(std::ostream*) osbuf; g_len = 0;
    util::write_uint64(os, v); ENSURES(g_len >= 1, "a number is written");
    const unsigned t = ND_BELOW(3); g_buf[g_len] = t == 1 ? '=' : ','; fast_istringstream is(std::string::iterator(g_buf), std::string::iterator(g_buf + g_len + (t ? 1 : 0)));
    ENSURES(read_uint64_element(is) == v, "the number read is the one written"); ENSURES(is.good() == (t != 0), "reading stops at the end of the number"); if (t) ENSURES(is.get() == g_buf[g_len], "the separator is left to read"); REACH("end");
}
#endif

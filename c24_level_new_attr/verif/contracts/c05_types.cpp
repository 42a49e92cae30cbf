#include "vf.h"
#include "caliper/common/cali_types.h"
#include <string.h>
#include <stdlib.h>
CONTRACT(type_roundtrip)
{
    cali_attr_type t = (cali_attr_type) ND_BELOW(CALI_MAXTYPE + 1);
    const char* s = cali_type2string(t);
    ENSURES(s != nullptr, "every type has a name");
    ENSURES(cali_string2type(s) == t, "string2type(type2string(t)) == t");
    REACH("end");
}
CONTRACT(type_out_of_range)
{
    unsigned t = ND_U32(); REQUIRES(t > CALI_MAXTYPE);
    const char* s = cali_type2string((cali_attr_type) t);
    ENSURES(cali_string2type(s) == CALI_TYPE_INV, "an out-of-range type prints as the invalid type");
    REACH("end");
}
CONTRACT(type_unknown_string)
{
    char s[12];
    for (int i = 0; i < 11; ++i) s[i] = (char) ND_U8();
    s[11] = 0;
    cali_attr_type t = cali_string2type(s);
    ENSURES(t <= CALI_MAXTYPE, "a valid type or invalid");
    ENSURES(t == CALI_TYPE_INV || strcmp(cali_type2string(t), s) == 0, "only a type's own name parses as that type");
    REACH("end");
}
static const int FLAGS = CALI_ATTR_ASVALUE | CALI_ATTR_NOMERGE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN | CALI_ATTR_NESTED | CALI_ATTR_GLOBAL | CALI_ATTR_UNALIGNED | CALI_ATTR_AGGREGATABLE;
static inline int nd_prop()
{
    static const int scopes[] = { 0, CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_SCOPE_THREAD, CALI_ATTR_SCOPE_TASK };
    return (int) (ND_U32() & FLAGS) | scopes[ND_BELOW(4)] | (int) (ND_BELOW(8) << 16);
}
// every combination of flags, for each of the 4 scopes x 8 levels (one contract each: symbolic flags, fixed scope and level)
static inline void prop_roundtrip(int base)
{
    int p = (int) (ND_U8() & 0xFF); int q = base;
    static const int fl[8] = { CALI_ATTR_ASVALUE, CALI_ATTR_NOMERGE, CALI_ATTR_SKIP_EVENTS, CALI_ATTR_HIDDEN, CALI_ATTR_NESTED, CALI_ATTR_GLOBAL, CALI_ATTR_UNALIGNED, CALI_ATTR_AGGREGATABLE };
    for (int k = 0; k < 8; ++k) if (p & (1 << k)) q |= fl[k];
    char buf[104];
    int n = cali_prop2string(q, buf, sizeof buf);
    ENSURES(n >= 0 && n < 104, "every property combination fits the buffer");
    ENSURES(n == 0 || buf[n] == 0, "terminated at the returned length");
    if (n == 0) buf[0] = 0;
    ENSURES(cali_string2prop(buf) == q, "string2prop(prop2string(p)) == p");
    REACH("end");
}
// flags symbolic (all 256 combinations) for every scope at a fixed level, and every scope x level at fixed flags; natively the full product
#ifdef VF_NATIVE
#define FLAGBITS 0xFF
#define RT(name, fl, sc, lv) CONTRACT(name) { const int sc_[] = { 0, CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_SCOPE_THREAD, CALI_ATTR_SCOPE_TASK }; (void) sc_; prop_roundtrip((int) (ND_BELOW(8) << 16) | sc_[ND_BELOW(4)]); }
#else
#define RT(name, fl, sc, lv) CONTRACT(name) { prop_roundtrip((sc) | (lv)); }
#endif
RT(prop_rt_none, 0xFF, 0, CALI_ATTR_LEVEL_0)
RT(prop_rt_process, 0xFF, CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_LEVEL_3)
RT(prop_rt_thread, 0xFF, CALI_ATTR_SCOPE_THREAD, CALI_ATTR_LEVEL_5)
RT(prop_rt_task, 0xFF, CALI_ATTR_SCOPE_TASK, CALI_ATTR_LEVEL_7)
CONTRACT(prop_levels)
{
    static const int scopes[] = { 0, CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_SCOPE_THREAD, CALI_ATTR_SCOPE_TASK };
    int q = scopes[ND_BELOW(4)] | (int) (ND_BELOW(8) << 16);
    char buf[104];
    int n = cali_prop2string(q, buf, sizeof buf);
    ENSURES(n > 0 && n < 104 && buf[n] == 0, "fits and is terminated");
    ENSURES(cali_string2prop(buf) == q, "scope and level survive the round trip");
    REACH("end");
}
// a name counts only as a whole word: the characters next to it decide
static inline bool alnum(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static inline void whole_word(const char* name, const int prop)
{
    char t[24]; unsigned n = 0; const bool l = ND_BOOL(), r = ND_BOOL(); unsigned char lc = ND_U8() & 0x7f, rc = ND_U8() & 0x7f;
    if (!l || !lc) lc = ':';
    if (!r || !rc) rc = ':';
    t[n++] = lc;
    for (const char* p = name; *p; ++p) t[n++] = *p;
    t[n++] = rc; t[n] = 0;
    const bool cut = ND_BOOL();   // name at the start of the text
    ENSURES(cali_string2prop(t + (cut ? 1 : 0)) == ((cut || !alnum(lc)) && !alnum(rc) ? prop : 0), "a property name is recognised exactly as a whole word");
}
CONTRACT(prop_words_1) { whole_word("asvalue", CALI_ATTR_ASVALUE); whole_word("nested", CALI_ATTR_NESTED); REACH("end"); }
CONTRACT(prop_words_2) { whole_word("hidden", CALI_ATTR_HIDDEN); whole_word("process_scope", CALI_ATTR_SCOPE_PROCESS); REACH("end"); }
CONTRACT(prop_words_3) { whole_word("aggregatable", CALI_ATTR_AGGREGATABLE); whole_word("level_7", CALI_ATTR_LEVEL_7); REACH("end"); }
// from here on only where bytes are written matters, not which
#ifndef VF_NATIVE
static bool vf_light_strcpy = false; static char* vf_base; static uint64_t vf_len;
extern "C" char* vf_model__strcpy(char* d, const char* s)
{
    uint64_t n = strlen(s);
    if (vf_light_strcpy) { ENSURES(d >= vf_base && (uint64_t) (d - vf_base) + n < vf_len, "the copied name and its terminator fit the remaining buffer"); d[n] = 0; } else for (uint64_t i = 0; i <= n; ++i) d[i] = s[i];
    return d;
}
#endif
CONTRACT(prop_buffer)
{
    // any property word, any buffer length: never writes outside the buffer
#ifndef VF_NATIVE
    vf_light_strcpy = true;
#endif
    int p = (int) ND_U32(); uint64_t len = ND_BELOW(160);
#ifdef VF_NATIVE
    char* buf = (char*) malloc(len);
#else
    static char buf[192]; vf_base = buf; vf_len = len;
    uint64_t g = ND_BELOW(192); const char old = buf[g];
#endif
    int n = cali_prop2string(p, buf, len);
    ENSURES(n == -1 || (n >= 0 && ((uint64_t) n < len || n == 0)), "returns -1 or a length smaller than the buffer");
    ENSURES(n <= 0 || buf[n] == 0, "terminated at the returned length");
#ifndef VF_NATIVE
    ENSURES(g < len || buf[g] == old, "bytes outside the buffer are untouched");
#else
    free(buf);
#endif
    REACH("end");
}

/* prelude for C produced by ir2c.py: types, nondeterministic inputs, libc contracts */
typedef _Bool u1; typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64; typedef __int128 s128;
typedef long double fp80; typedef char* ptr; typedef struct { u8 b[8]; } S_opaque;
void* malloc(unsigned long); void free(void*);
#define VF_INF __builtin_inf()
#define VF_NAN __builtin_nan("")
u64 vf_nd_log;
u64 nondet_raw_u64(void); double nondet_raw_double(void);
static u64 VF_nd_u64(void) { u64 v = nondet_raw_u64(); vf_nd_log = v; return v; }
static u32 VF_nd_u32(void) { u32 v = (u32)nondet_raw_u64(); vf_nd_log = v; return v; }
static u16 VF_nd_u16(void) { u16 v = (u16)nondet_raw_u64(); vf_nd_log = v; return v; }
static u8 VF_nd_u8(void) { u8 v = (u8)nondet_raw_u64(); vf_nd_log = v; return v; }
static u1 VF_nd_bool(void) { u1 v = (u1)(nondet_raw_u64() & 1); vf_nd_log = v; return v; }
static double VF_nd_double(void) { u64 v = nondet_raw_u64(); vf_nd_log = v; double d = *(double*)&v; return d; }
static u64 VF_nd_below(u64 n) { u64 v = nondet_raw_u64(); __CPROVER_assume(v < n); vf_nd_log = v; return v; }
/* double arithmetic as uninterpreted functions (contract option "ufp"): a proof then holds for any such operation, in particular IEEE; + and * are commutative */
static double vf_bd(u64 r) { return *(double*)&r; }
static u64 vf_db(double d) { return *(u64*)&d; }
u64 __CPROVER_uninterpreted_fadd(u64, u64); u64 __CPROVER_uninterpreted_fsub(u64, u64); u64 __CPROVER_uninterpreted_fmul(u64, u64); u64 __CPROVER_uninterpreted_fdiv(u64, u64);
static double VF_uf_fadd(double a, double b) { u64 x = vf_db(a), y = vf_db(b); return vf_bd(x < y ? __CPROVER_uninterpreted_fadd(x, y) : __CPROVER_uninterpreted_fadd(y, x)); }
static double VF_uf_fmul(double a, double b) { u64 x = vf_db(a), y = vf_db(b); return vf_bd(x < y ? __CPROVER_uninterpreted_fmul(x, y) : __CPROVER_uninterpreted_fmul(y, x)); }
static double VF_uf_fsub(double a, double b) { return vf_bd(__CPROVER_uninterpreted_fsub(vf_db(a), vf_db(b))); }
static double VF_uf_fdiv(double a, double b) { return vf_bd(__CPROVER_uninterpreted_fdiv(vf_db(a), vf_db(b))); }
/* ---- libc contracts (trusted), executable specifications */
static void M_free(ptr p) { }
static u64 M_strlen(ptr p) { u64 n = 0; while (p[n]) ++n; return n; }
static s32 M_memcmp(ptr a, ptr b, u64 n) { for (u64 i = 0; i < n; ++i) { u8 x = (u8)a[i], y = (u8)b[i]; if (x != y) return x < y ? -1 : 1; } return 0; }
static s32 M_strcmp(ptr a, ptr b) { u64 i = 0; while (a[i] && a[i] == b[i]) ++i; u8 x = (u8)a[i], y = (u8)b[i]; return x < y ? -1 : (x > y ? 1 : 0); }
static s32 M_strncmp(ptr a, ptr b, u64 n) { u64 i = 0; for (; i < n; ++i) { u8 x = (u8)a[i], y = (u8)b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static ptr M_memchr(ptr a, s32 c, u64 n) { for (u64 i = 0; i < n; ++i) if ((u8)a[i] == (u8)c) return a + i; return (ptr)0; }
static ptr M_strchr(ptr a, s32 c) { u64 i = 0; for (;; ++i) { if ((u8)a[i] == (u8)c) return a + i; if (!a[i]) return (ptr)0; } }
static ptr M_strrchr(ptr a, s32 c) { ptr r = (ptr)0; u64 i = 0; for (;; ++i) { if ((u8)a[i] == (u8)c) r = a + i; if (!a[i]) return r; } }
static ptr M_strstr(ptr h, ptr n) { u64 i = 0; for (;; ++i) { u64 j = 0; while (n[j] && h[i + j] == n[j]) ++j; if (!n[j]) return h + i; if (!h[i]) return (ptr)0; } }
static ptr M_strcpy(ptr d, ptr s) { u64 i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
static ptr M_strncpy(ptr d, ptr s, u64 n) { u64 i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
static ptr M_memcpy(ptr d, ptr s, u64 n) { for (u64 i = 0; i < n; ++i) d[i] = s[i]; return d; }
static ptr M_memcpy_w(ptr d, ptr s, u64 n) { for (u64 i = 0; i < n; ++i) ((u64*)d)[i] = ((u64*)s)[i]; return d; }
static ptr M_memmove_w(ptr d, ptr s, u64 n) { if ((u64)d <= (u64)s) for (u64 i = 0; i < n; ++i) ((u64*)d)[i] = ((u64*)s)[i]; else for (u64 i = n; i > 0; --i) ((u64*)d)[i-1] = ((u64*)s)[i-1]; return d; }
static ptr M_memmove(ptr d, ptr s, u64 n) { if ((u64)d <= (u64)s) for (u64 i = 0; i < n; ++i) d[i] = s[i]; else for (u64 i = n; i > 0; --i) d[i-1] = s[i-1]; return d; }
static ptr M_memset(ptr d, u32 c, u64 n) { for (u64 i = 0; i < n; ++i) d[i] = (char)c; return d; }
static ptr M_calloc(u64 a, u64 b) { ptr p = (ptr)malloc(a * b); for (u64 i = 0; i < a * b; ++i) p[i] = 0; return p; }
static ptr M_realloc(ptr p, u64 n);
static u32 M_ctpop(u64 x, int w) { u32 n = 0; for (int i = 0; i < w; ++i) n += (x >> i) & 1; return n; }
static u32 M_cttz(u64 x, int w) { for (int i = 0; i < w; ++i) if ((x >> i) & 1) return i; return w; }
static u32 M_ctlz(u64 x, int w) { for (int i = 0; i < w; ++i) if ((x >> (w - 1 - i)) & 1) return i; return w; }
static u32 M_ffs(u32 x) { return x ? M_cttz(x, 32) + 1 : 0; }
static void M_abort(void) { __CPROVER_assert(0, "VF: abort() reached"); __CPROVER_assume(0); }
static s32 M_isspace(u32 c) { return c == 32 || (c >= 9 && c <= 13); }
static s32 M_isdigit(u32 c) { return c >= 48 && c <= 57; }
static s32 M_isalpha(u32 c) { return (c >= 65 && c <= 90) || (c >= 97 && c <= 122); }
static s32 M_isalnum(u32 c) { return M_isdigit(c) || M_isalpha(c); }
static s32 M_isprint(u32 c) { return c >= 32 && c < 127; }
static s32 M_ispunct(u32 c) { return c > 32 && c < 127 && !M_isalnum(c); }
static s32 M_tolower(u32 c) { return c >= 65 && c <= 90 ? c + 32 : c; }
static s32 M_toupper(u32 c) { return c >= 97 && c <= 122 ? c - 32 : c; }
static s32 M_ignore3(ptr a, ptr b, ptr c) { return 0; }
static void M_ignore1(ptr a) { *(u8*)a = 1; }
static s32 M_guard_acquire(ptr a) { return *(u8*)a == 0; }
static double M_fabs(double x) { return x < 0 ? -x : (x == 0 ? 0.0 : x); }
double floor(double); double ceil(double); double sqrt(double); double round(double); double trunc(double); double rint(double);
static double M_floor(double x) { return floor(x); }
static double M_ceil(double x) { return ceil(x); }
static double M_sqrt(double x) { return sqrt(x); }
static double M_round(double x) { return round(x); }
static double M_trunc(double x) { return trunc(x); }
static double M_rint(double x) { return rint(x); }

/* glibc ctype table for the C locale */
static u16 vf_ctype_tab[384]; static u16* vf_ctype_p;
static ptr M_ctype_b_loc(void) {
  for (int c = 0; c < 128; ++c) { u16 m = 0;
    u1 up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
    u1 sp = c == ' ' || (c >= 9 && c <= 13), pr = c >= 32 && c < 127, xd = dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    if (up) m |= 0x100; if (lo) m |= 0x200; if (up || lo) m |= 0x400; if (dg) m |= 0x800; if (xd) m |= 0x1000; if (sp) m |= 0x2000; if (pr) m |= 0x4000;
    if (pr && c != ' ') m |= 0x8000; if (c == ' ' || c == 9) m |= 1; if (c < 32 || c == 127) m |= 2; if (pr && c != ' ' && !up && !lo && !dg) m |= 4; if (up || lo || dg) m |= 8;
    vf_ctype_tab[128 + c] = m; }
  vf_ctype_p = vf_ctype_tab + 128; return (ptr)&vf_ctype_p; }

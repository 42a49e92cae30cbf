#include "variant.h"
#include "memmodel.h"
static int sgn(int x) { return x < 0 ? -1 : (x > 0 ? 1 : 0); }
static inline Variant nd_blob(const bool str)
{
    // a string/blob of any length with arbitrary contents
    uint64_t n = ND_U64();
#ifdef VF_NATIVE
    REQUIRES(n <= 24);
#else
    REQUIRES(n < (1ull << 31));
#endif
    char* p = (char*) malloc(n + 1);
#ifdef VF_NATIVE
    memset(p, 'a', n); p[n] = 0;
#endif
    for (int k = 0; k < 2; ++k) { uint64_t i = ND_U64(); char c = (char) ND_U8(); if (i < n) p[i] = c; }
    if (str) {
#ifdef VF_NATIVE
        for (uint64_t i = 0; i < n; ++i) REQUIRES(p[i] != 0);
#endif
        p[n] = 0;
    }
    return Variant(str ? CALI_TYPE_STRING : CALI_TYPE_USR, p, n);
}
static Variant nd_of(cali_attr_type t)
{
    Variant v = nd_scalar_of(t);
    if (t == CALI_TYPE_DOUBLE) REQUIRES(!is_nan(v.c_variant().value.v_double));
    return v;
}
static int cmp(const Variant& a, const Variant& b) { return cali_variant_compare(a.c_variant(), b.c_variant()); }
static inline void laws(const Variant& a, const Variant& b, const Variant& c)
{
    int ab = sgn(cmp(a, b)), ba = sgn(cmp(b, a)), bc = sgn(cmp(b, c)), ac = sgn(cmp(a, c));
    ENSURES(ab == -ba, "antisymmetric: compare(a,b) == -compare(b,a)");
    if (ab <= 0 && bc <= 0) ENSURES(ac <= 0, "transitive");
    if (ab < 0 && bc <= 0) ENSURES(ac < 0, "transitive (strict left)");
    if (ab <= 0 && bc < 0) ENSURES(ac < 0, "transitive (strict right)");
    ENSURES(cmp(a, a) == 0, "reflexive");
    ENSURES((a < b) == (ab < 0) && (a > b) == (ab > 0), "operators < and > agree with compare");
    if (a == b) ENSURES(ab == 0, "equal values compare equal");
    ENSURES((a == b) == !(a != b), "== and != are complementary");
    REACH("end");
}
static inline void numeric(cali_attr_type t)
{
    Variant a = nd_of(t), b = nd_of(t);
    cali_variant_t x = a.c_variant(), y = b.c_variant();
    int r = sgn(cmp(a, b)), e = 0; bool eq = true;
    switch (t) {
    case CALI_TYPE_INT:    e = x.value.v_int < y.value.v_int ? -1 : x.value.v_int > y.value.v_int; eq = x.value.v_int == y.value.v_int; break;
    case CALI_TYPE_UINT:
    case CALI_TYPE_ADDR:   e = x.value.v_uint < y.value.v_uint ? -1 : x.value.v_uint > y.value.v_uint; eq = x.value.v_uint == y.value.v_uint; break;
    case CALI_TYPE_DOUBLE: e = x.value.v_double < y.value.v_double ? -1 : x.value.v_double > y.value.v_double; eq = bits(x.value.v_double) == bits(y.value.v_double); break;
    case CALI_TYPE_BOOL:   e = (int) x.value.v_bool - (int) y.value.v_bool; eq = x.value.v_bool == y.value.v_bool; break;
    case CALI_TYPE_TYPE:   e = (int) x.value.v_type < (int) y.value.v_type ? -1 : (int) x.value.v_type > (int) y.value.v_type; eq = x.value.v_type == y.value.v_type; break;
    default: break;
    }
    ENSURES(r == e, "values of one type are ordered numerically");
    ENSURES((a == b) == eq, "== holds exactly for the same value");
    REACH("end");
}
#define PER_TYPE(T) \
    CONTRACT(order_laws_##T) { Variant a = nd_of(CALI_TYPE_##T), b = nd_of(CALI_TYPE_##T), c = nd_of(CALI_TYPE_##T); laws(a, b, c); } \
    CONTRACT(order_value_##T) { numeric(CALI_TYPE_##T); }
PER_TYPE(INV) PER_TYPE(INT) PER_TYPE(UINT) PER_TYPE(ADDR) PER_TYPE(DOUBLE) PER_TYPE(BOOL) PER_TYPE(TYPE)
CONTRACT(order_types)
{
    // across types: the type decides; with the per-type laws this makes the order lexicographic (type, value), hence total
    cali_variant_t x, y;
    x.type_and_size = ND_U64(); x.value.v_uint = ND_U64(); y.type_and_size = ND_U64(); y.value.v_uint = ND_U64();
    uint64_t t = x.type_and_size & 0xFF, u = y.type_and_size & 0xFF;
    REQUIRES(t <= CALI_MAXTYPE && u <= CALI_MAXTYPE && t != u);
    Variant a(x), b(y);
    ENSURES(sgn(cmp(a, b)) == (t < u ? -1 : 1), "values of different types are ordered by type");
    ENSURES(!(a == b) && a != b, "values of different types are never equal");
    REACH("end");
}
CONTRACT(order_ptr)
{
    char* p = (char*) ND_U64(); char* q = (char*) ND_U64();
    Variant a(cali_make_variant_from_ptr(p)), b(cali_make_variant_from_ptr(q));
    int ab = sgn(cmp(a, b)), ba = sgn(cmp(b, a));
    ENSURES(ab == -ba, "antisymmetric: compare(a,b) == -compare(b,a)");
    ENSURES((ab == 0) == (p == q) && (a == b) == (p == q), "pointers compare equal exactly when identical");
    REACH("end");
}
#define PER_BLOB(N, STR) \
CONTRACT(order_antisym_##N) \
{ \
    Variant a = nd_blob(STR), b = nd_blob(STR); \
    int ab = sgn(cmp(a, b)), ba = sgn(cmp(b, a)); \
    ENSURES(ab == -ba, "antisymmetric: compare(a,b) == -compare(b,a)"); \
    REACH("end"); \
} \
CONTRACT(order_trans_##N) \
{ \
    Variant a = nd_blob(STR), b = nd_blob(STR), c = nd_blob(STR); \
    int ab = sgn(cmp(a, b)), bc = sgn(cmp(b, c)), ac = sgn(cmp(a, c)); \
    if (ab <= 0 && bc <= 0) ENSURES(ac <= 0, "transitive"); \
    if (ab < 0 && bc <= 0) ENSURES(ac < 0, "transitive (strict left)"); \
    if (ab <= 0 && bc < 0) ENSURES(ac < 0, "transitive (strict right)"); \
    REACH("end"); \
} \
CONTRACT(order_equal_##N) { string_eq(STR); }
static inline void string_eq(const bool str)
{
    Variant a = nd_blob(str), b = nd_blob(str);
    const unsigned char* p = (const unsigned char*) a.data(); const unsigned char* q = (const unsigned char*) b.data();
    uint64_t n = a.size();
    bool eq = (a == b);
    ENSURES((a != b) == !eq, "== and != are complementary");
    if (eq) {
        ENSURES(a.size() == b.size() && a.type() == b.type(), "equal strings have equal length");
        ENSURES(cmp(a, b) == 0, "equal strings compare equal");
    }
#ifdef VF_NATIVE
    ENSURES(eq == (n == b.size() && memcmp(p, q, n) == 0), "== holds exactly for equal bytes");
#else
    // completeness of ==: whenever it says "different", there is a byte or length that differs
    if (!eq) { uint64_t d = vf_nfacts ? vf_facts[0].d : 0;
      ENSURES(n != b.size() || (n > 0 && (p[0] != q[0] || p[n / 2] != q[n / 2] || p[n - 1] != q[n - 1])) || (vf_nfacts && d < n && p[d] != q[d]), "unequal strings differ in some byte or in length"); }
    else { uint64_t g = ND_U64(); if (vf_nfacts) { REQUIRES(vf_at(vf_facts[0], g)); } ENSURES(!(g < n) || p[g] == q[g], "== holds only for equal bytes"); }
#endif
    REACH("end");
}
PER_BLOB(string, true) PER_BLOB(blob, false)

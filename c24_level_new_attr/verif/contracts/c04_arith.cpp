#include "variant.h"
static inline bool same(const Variant& a, const Variant& b) { return a.c_variant().type_and_size == b.c_variant().type_and_size && a.c_variant().value.v_uint == b.c_variant().value.v_uint; }
static inline bool lt(const cali_attr_type t, const Variant& a, const Variant& b)
{
    cali_variant_t x = a.c_variant(), y = b.c_variant();
    return t == CALI_TYPE_INT ? x.value.v_int < y.value.v_int : (t == CALI_TYPE_UINT ? x.value.v_uint < y.value.v_uint : x.value.v_double < y.value.v_double);
}
static inline Variant nd_num(const cali_attr_type t)
{
    Variant v = nd_scalar_of(t);
    if (t == CALI_TYPE_DOUBLE) REQUIRES(!is_nan(v.c_variant().value.v_double));
    return v;
}
static inline Variant plus(const cali_attr_type t, const Variant& a, const Variant& b)
{
    cali_variant_t x = a.c_variant(); cali_variant_t y = b.c_variant();
    if (t == CALI_TYPE_DOUBLE) x.value.v_double += y.value.v_double; else x.value.v_uint += y.value.v_uint;
    return Variant(x);
}
static inline bool num_eq(const cali_attr_type t, const Variant& a, const Variant& b)
{
    if (a.type() != t || b.type() != t) return false;
    if (t == CALI_TYPE_DOUBLE) { double x = a.c_variant().value.v_double, y = b.c_variant().value.v_double; return x == y || (is_nan(x) && is_nan(y)); }
    return same(a, b);
}
static inline void arith(const cali_attr_type t)
{
    const Variant a = nd_num(t), b = nd_num(t);
    Variant m = a, M = a, s = a, e;
    m.min(b); M.max(b); s += b;
    ENSURES(num_eq(t, m, lt(t, b, a) ? b : a), "min is the smaller of the two");
    ENSURES(num_eq(t, M, lt(t, a, b) ? b : a), "max is the larger of the two");
    ENSURES(num_eq(t, s, plus(t, a, b)), "+= adds");
    Variant e1 = e, e2 = e, e3 = e; e1.min(b); e2.max(b); e3 += b;
    ENSURES(same(e1, b) && same(e2, b) && same(e3, b), "an empty accumulator adopts the first value");
    REACH("end");
}
static inline void running(const cali_attr_type t)
{
    // one step of the running min/max/sum, from any consistent accumulator
    Variant mn = nd_num(t), mx = nd_num(t), s = nd_num(t); const Variant v = nd_num(t);
    REQUIRES(!lt(t, mx, mn));
    const Variant mn0 = mn, mx0 = mx, s0 = s;
    Variant::update_minmaxsum(v, mn, mx, s);
    ENSURES(num_eq(t, mn, lt(t, v, mn0) ? v : mn0), "running minimum");
    ENSURES(num_eq(t, mx, lt(t, mx0, v) ? v : mx0), "running maximum");
    ENSURES(num_eq(t, s, plus(t, s0, v)), "running sum");
    Variant a, b, c;
    Variant::update_minmaxsum(v, a, b, c);
    ENSURES(same(a, v) && same(b, v) && same(c, v), "first value initialises min, max and sum");
    REACH("end");
}
static inline void order_free(const cali_attr_type t)
{
    // merging partial results in any grouping/order gives the same min, max (and integer sum)
    const Variant a = nd_num(t), b = nd_num(t), c = nd_num(t);
    Variant l = a, r = b; l.min(b); l.min(c); r.min(c); { Variant x = r; r = a; r.min(x); }
    ENSURES(num_eq(t, l, r), "min is associative");
    Variant l2 = a, r2 = b; l2.max(b); l2.max(c); r2.max(c); { Variant x = r2; r2 = a; r2.max(x); }
    ENSURES(num_eq(t, l2, r2), "max is associative");
    Variant p = a, q = b; p += b; q += a; ENSURES(num_eq(t, p, q), "sum is commutative");
    Variant p2 = a, q2 = b; p2.min(b); q2.min(a); ENSURES(num_eq(t, p2, q2), "min is commutative");
    Variant p3 = a, q3 = b; p3.max(b); q3.max(a); ENSURES(num_eq(t, p3, q3), "max is commutative");
    if (t != CALI_TYPE_DOUBLE) { Variant x = a, y = b; x += b; x += c; y += c; Variant z = a; z += y; ENSURES(num_eq(t, x, z), "integer sum is associative"); }
    REACH("end");
}
#define NUM(T) CONTRACT(arith_##T) { arith(CALI_TYPE_##T); } CONTRACT(running_##T) { running(CALI_TYPE_##T); } CONTRACT(merge_##T) { order_free(CALI_TYPE_##T); }
NUM(INT) NUM(UINT) NUM(DOUBLE)
CONTRACT(divide_INT)
{
    const uint64_t n = ND_U64(); REQUIRES(n > 0 && n < (1ull << 63)); int64_t i = (int64_t) ND_U64();
    Variant a = Variant(cali_make_variant_from_int64(i)).div(n);
    ENSURES(a.type() == CALI_TYPE_INT && a.c_variant().value.v_int == i / (int64_t) n, "integer mean truncates toward zero");
    REACH("end");
}
CONTRACT(divide_UINT)
{
    const uint64_t n = ND_U64(); REQUIRES(n > 0); uint64_t u = ND_U64();
    Variant b = Variant(cali_make_variant_from_uint(u)).div(n);
    ENSURES(b.type() == CALI_TYPE_UINT && b.c_variant().value.v_uint == u / (uint64_t) n, "unsigned mean rounds down");
    ENSURES(Variant(true).div(n).empty() && Variant().div(n).empty(), "non-numeric values have no mean");
    REACH("end");
}
CONTRACT(divide_DOUBLE)
{
    const uint64_t n = ND_U64(); REQUIRES(n > 0); double d = ND_DOUBLE();
    Variant c = Variant(d).div(n);
    double x = d / (double) n, y = c.c_variant().value.v_double;
    ENSURES(c.type() == CALI_TYPE_DOUBLE && (y == x || (is_nan(y) && is_nan(x))), "double mean is value / count");
    REACH("end");
}

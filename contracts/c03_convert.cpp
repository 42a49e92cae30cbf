#include "variant.h"
static inline void conv_of(const cali_attr_type t)
{
    Variant v = nd_scalar_of(t);
    const int64_t i = v.c_variant().value.v_int; const uint64_t u = v.c_variant().value.v_uint; const double d = v.c_variant().value.v_double;
    const bool bv = v.c_variant().value.v_bool; const cali_attr_type tv = v.c_variant().value.v_type;
    bool useok = ND_BOOL();
    bool oki = ND_BOOL(), okl = ND_BOOL(), oku = ND_BOOL(), okb = ND_BOOL(), okd = ND_BOOL(), okt = ND_BOOL(), okid = ND_BOOL();
    int       ri = v.to_int(useok ? &oki : nullptr);
    int64_t   rl = v.to_int64(useok ? &okl : nullptr);
    uint64_t  ru = v.to_uint(useok ? &oku : nullptr);
    bool      rb = v.to_bool(useok ? &okb : nullptr);
    double    rd = v.to_double(useok ? &okd : nullptr);
    cali_attr_type rt = v.to_attr_type(useok ? &okt : nullptr);
    cali_id_t rid = v.to_id(useok ? &okid : nullptr);
    bool ei = false, el = false, eu = false, eb = false, ed = false, et = false;   // expected success
    int xi = 0; int64_t xl = 0; uint64_t xu = 0; bool xb = false; double xd = 0; cali_attr_type xt = CALI_TYPE_INV;
    switch (t) {
    case CALI_TYPE_INT:
        ei = i >= INT_MIN && i <= INT_MAX; xi = ei ? (int) i : 0; el = true; xl = i; eu = i >= 0; xu = eu ? (uint64_t) i : 0;
        eb = true; xb = i != 0; ed = true; xd = (double) i; break;
    case CALI_TYPE_UINT: case CALI_TYPE_ADDR:
        ei = u <= INT_MAX; xi = ei ? (int) u : 0; el = u <= INT64_MAX; xl = el ? (int64_t) u : 0; eu = true; xu = u;
        eb = true; xb = u != 0; ed = true; xd = (double) u; break;
    case CALI_TYPE_DOUBLE:
        ei = d > -2147483649.0 && d < 2147483648.0; xi = ei ? (int) d : 0;
        el = d >= -9223372036854775808.0 && d < 9223372036854775808.0; xl = el ? (int64_t) d : 0;
        eu = d > -1.0 && d < 18446744073709551616.0; xu = eu ? (uint64_t) d : 0;
        ed = true; xd = d; break;
    case CALI_TYPE_BOOL:
        ei = el = eu = eb = ed = true; xi = bv; xl = bv; xu = bv; xb = bv; xd = bv; break;
    case CALI_TYPE_TYPE:
        ei = el = eu = ed = et = true; xi = (int) tv; xl = (int64_t) tv; xu = (uint64_t) tv; xd = (double) (int) tv; xt = tv; break;
    default: break;
    }
    ENSURES(ri == xi, "as int: the exact value, or 0 if it does not fit");
    ENSURES(rl == xl, "as int64: the exact value, or 0 if it does not fit");
    ENSURES(ru == xu, "as uint64: the exact value, or 0 if it does not fit");
    ENSURES(rb == xb, "as bool: true iff nonzero integer or true");
    ENSURES(bits(rd) == bits(xd) || (is_nan(rd) && is_nan(xd)), "as double: nearest double");
    ENSURES(rt == xt, "as type: only type values convert");
    ENSURES(rid == (eu ? xu : CALI_INV_ID), "as id: the value, or the invalid id");
    if (useok) {
        ENSURES(oki == ei, "int conversion success reported exactly when it fits");
        ENSURES(okl == el, "int64 conversion success reported exactly when it fits");
        ENSURES(oku == eu && okid == eu, "uint64 conversion success reported exactly when it fits");
        ENSURES(okb == eb, "bool conversion success");
        ENSURES(okd == ed, "double conversion success");
        ENSURES(okt == et, "type conversion success");
    }
    REACH("end");
}
#define CONV(T) CONTRACT(convert_##T) { conv_of(CALI_TYPE_##T); }
CONV(INV) CONV(INT) CONV(UINT) CONV(ADDR) CONV(DOUBLE) CONV(BOOL) CONV(TYPE)
CONTRACT(convert_nonnumeric)
{
    // strings, blobs and pointers never convert
    cali_variant_t c; c.type_and_size = ND_U64(); c.value.v_uint = ND_U64();
    uint64_t t = c.type_and_size & 0xFF;
    REQUIRES(t == CALI_TYPE_STRING || t == CALI_TYPE_USR || t == CALI_TYPE_PTR);
    Variant v(c);
    bool ok = true;
    ENSURES(v.to_int(&ok) == 0 && !ok, "no int"); ok = true;
    ENSURES(v.to_int64(&ok) == 0 && !ok, "no int64"); ok = true;
    ENSURES(v.to_uint(&ok) == 0 && !ok, "no uint"); ok = true;
    ENSURES(v.to_bool(&ok) == false && !ok, "no bool"); ok = true;
    ENSURES(v.to_double(&ok) == 0 && !ok, "no double"); ok = true;
    ENSURES(v.to_attr_type(&ok) == CALI_TYPE_INV && !ok, "no type"); ok = true;
    ENSURES(v.to_id(&ok) == CALI_INV_ID && !ok, "no id");
    REACH("end");
}
CONTRACT(construct_scalars)
{
    int64_t i = (int64_t) ND_U64(); uint64_t u = ND_U64(); double d = ND_DOUBLE(); bool b = ND_BOOL(); int n = (int) ND_U32();
    cali_attr_type t = (cali_attr_type) ND_BELOW(CALI_MAXTYPE + 1); void* p = (void*) ND_U64();
    Variant vi(cali_make_variant_from_int64(i)), vu(cali_make_variant_from_uint(u)), vd(d), vb(b), vn(n), vt(t), vp(cali_make_variant_from_ptr(p)), e;
    ENSURES(vi.type() == CALI_TYPE_INT && vi.to_int64() == i && vi.size() == 8 && *(const int64_t*) vi.data() == i, "int64");
    ENSURES(vu.type() == CALI_TYPE_UINT && vu.to_uint() == u && vu.size() == 8 && *(const uint64_t*) vu.data() == u, "uint64");
    ENSURES(vd.type() == CALI_TYPE_DOUBLE && bits(vd.to_double()) == bits(d) && vd.size() == 8 && bits(*(const double*) vd.data()) == bits(d), "double");
    ENSURES(vb.type() == CALI_TYPE_BOOL && vb.to_bool() == b && vb.size() == sizeof(bool) && *(const bool*) vb.data() == b, "bool");
    ENSURES(vn.type() == CALI_TYPE_INT && vn.to_int() == n && vn.to_int64() == n, "int");
    ENSURES(vt.type() == CALI_TYPE_TYPE && vt.to_attr_type() == t && vt.size() == sizeof(t) && *(const cali_attr_type*) vt.data() == t, "type");
    ENSURES(vp.type() == CALI_TYPE_PTR && vp.get_ptr() == p && vp.data() == p && vp.size() == sizeof(void*), "ptr");
    ENSURES(vi.get_ptr() == nullptr && vu.get_ptr() == nullptr, "only pointer values yield a pointer");
    ENSURES(e.empty() && !e && e.type() == CALI_TYPE_INV && e.size() == 0 && e.data() == nullptr, "default value is empty");
    ENSURES(!vi.empty() && !vu.empty() && !vd.empty() && !vb.empty() && !vt.empty() && !vp.empty(), "any stored value, zero included, is not empty");
    ENSURES(!vi.has_unmanaged_data() && !vu.has_unmanaged_data() && !vd.has_unmanaged_data() && !vb.has_unmanaged_data() && !vt.has_unmanaged_data(), "scalars own no external data");
    ENSURES(Variant(CALI_TYPE_INT, &i, sizeof i) == vi && Variant(CALI_TYPE_UINT, &u, sizeof u) == vu && Variant(CALI_TYPE_BOOL, &b, sizeof b) == vb
         && Variant(CALI_TYPE_DOUBLE, &d, sizeof d) == vd && Variant(CALI_TYPE_TYPE, &t, sizeof t) == vt, "generic and typed constructors agree");
    REACH("end");
}
CONTRACT(construct_blob)
{
    // any length; data and size accessors return what was stored
    uint64_t n = ND_U32(); bool str = ND_BOOL();
#ifdef VF_NATIVE
    REQUIRES(n <= 4096);
#endif
    char* p = (char*) malloc(n + (n == 0));
    Variant v(str ? CALI_TYPE_STRING : CALI_TYPE_USR, p, n);
    ENSURES(v.type() == (str ? CALI_TYPE_STRING : CALI_TYPE_USR) && v.data() == p && v.size() == n && !v.empty() && v.has_unmanaged_data() && v.get_ptr() == nullptr, "string/blob keeps pointer and size");
    REACH("end");
}
CONTRACT(construct_cstring)
{
    // C string constructor agrees with the (pointer, length) constructor
    char* p = (char*) malloc(8); unsigned n = 0; bool end = false;
    for (int i = 0; i < 7; ++i) { char c = (char) ND_U8(); p[i] = end ? 'x' : c; if (!end) { if (c == 0) end = true; else ++n; } }
    p[7] = 0;
    Variant v(p), w(CALI_TYPE_STRING, p, n);
    ENSURES(v.size() == n && v.data() == p && v.type() == CALI_TYPE_STRING, "length is the C string length");
    ENSURES(v == w && w == v, "equal to the value built from pointer and length");
    REACH("end");
}

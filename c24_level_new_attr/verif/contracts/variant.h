#pragma once
#include "vf.h"
#include "caliper/common/Variant.h"
#include <string.h>
#include <stdlib.h>
#include <limits.h>
using cali::Variant;
// any scalar (non-pointer) value, built through the library's own constructor
static inline cali_attr_type nd_scalar_type()
{
    static const cali_attr_type ts[] = { CALI_TYPE_INV, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE };
    return ts[ND_BELOW(7)];
}
static inline Variant nd_scalar_of(cali_attr_type t)
{
    switch (t) {
    case CALI_TYPE_INT:    { int64_t i = (int64_t) ND_U64(); return Variant(CALI_TYPE_INT, &i, sizeof i); }
    case CALI_TYPE_UINT:   { uint64_t u = ND_U64(); return Variant(CALI_TYPE_UINT, &u, sizeof u); }
    case CALI_TYPE_ADDR:   { uint64_t u = ND_U64(); return Variant(CALI_TYPE_ADDR, &u, sizeof u); }
    case CALI_TYPE_DOUBLE: { double d = ND_DOUBLE(); return Variant(CALI_TYPE_DOUBLE, &d, sizeof d); }
    case CALI_TYPE_BOOL:   { bool b = ND_BOOL(); return Variant(CALI_TYPE_BOOL, &b, sizeof b); }
    case CALI_TYPE_TYPE:   { cali_attr_type a = (cali_attr_type) ND_BELOW(CALI_MAXTYPE + 1); return Variant(CALI_TYPE_TYPE, &a, sizeof a); }
    default: return Variant();
    }
}
static inline Variant nd_scalar() { return nd_scalar_of(nd_scalar_type()); }
static inline bool is_nan(double d) { return d != d; }
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

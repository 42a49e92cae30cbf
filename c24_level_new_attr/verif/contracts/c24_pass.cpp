#include "variant.h"
#ifndef VF_NATIVE
#include "caliper/RegionFilter.h"
using namespace cali;
static char g_i, g_e; static bool g_mi, g_me;
extern "C" bool vf_model___ZN4cali12RegionFilter5matchERKNS_7VariantERKNS0_6FilterE(const Variant*, const RegionFilter::Filter* f) { ENSURES((const char*) f == &g_i || (const char*) f == &g_e, "only the filter's own lists decide"); return (const char*) f == &g_i ? g_mi : g_me; }
CONTRACT(exclude_first)
{
    union U { RegionFilter f; U() {} ~U() {} } u; memset((void*) &u.f, 0, sizeof u.f); const bool hi = ND_BOOL(), he = ND_BOOL(); g_mi = ND_BOOL(); g_me = ND_BOOL();
    if (hi) u.f.m_include_filters._M_ptr = (RegionFilter::Filter*) &g_i; if (he) u.f.m_exclude_filters._M_ptr = (RegionFilter::Filter*) &g_e;
    ENSURES(u.f.pass(Variant()) == (!(he && g_me) && (!hi || g_mi)), "excluded names are left out, others must be included if there is an include list"); ENSURES(u.f.has_filters() == (hi || he), "a filter exists if either list does"); REACH("end");
}
#endif

// Unbounded contracts of memcmp/strncmp (trusted libc specification), used only by the prover.
// Each call is summarised by its first difference d; the universally quantified fact
// "all bytes before d agree" is instantiated at the differences of all other calls made so far.
#pragma once
#ifndef VF_NATIVE
#include <stddef.h>
#include <stdint.h>
struct vf_cmp_fact { const unsigned char* a; const unsigned char* b; uint64_t d; bool z; };
static vf_cmp_fact vf_facts[8]; static unsigned vf_nfacts = 0;
static inline bool vf_at(const vf_cmp_fact& f, uint64_t i)
{
    return !(i < f.d) || (f.a[i] == f.b[i] && (!f.z || f.a[i] != 0));
}
static inline int vf_cmp(const unsigned char* a, const unsigned char* b, uint64_t n, bool z)
{
    uint64_t d = vf_nd_u64();
    vf_assume(d <= n);
    if (d < n) vf_assume(a[d] != b[d] || (z && a[d] == 0));
    if (n > 0) { (void) *(volatile const unsigned char*) a; }
    vf_cmp_fact f = { a, b, d, z };
    for (unsigned k = 0; k < vf_nfacts; ++k) {
        vf_assume(vf_at(vf_facts[k], d < n ? d : 0));
        vf_assume(vf_at(f, vf_facts[k].d));
    }
    if (n > 0) vf_assume(vf_at(f, 0) && vf_at(f, n - 1) && vf_at(f, n / 2));
    vf_facts[vf_nfacts++] = f;
    if (d == n) return 0;
    // any value of the right sign: callers may rely on nothing else
    int r = (int) vf_nd_u32();
    vf_assume(a[d] < b[d] ? r < 0 : (a[d] > b[d] ? r > 0 : r == 0));
    return r;
}
extern "C" int vf_model__memcmp(const void* a, const void* b, size_t n) { return vf_cmp((const unsigned char*) a, (const unsigned char*) b, n, false); }
extern "C" int vf_model__bcmp(const void* a, const void* b, size_t n) { return vf_cmp((const unsigned char*) a, (const unsigned char*) b, n, false); }
extern "C" int vf_model__strncmp(const char* a, const char* b, size_t n) { return vf_cmp((const unsigned char*) a, (const unsigned char*) b, n, true); }
#endif

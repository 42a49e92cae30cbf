#include "c10_fix.h"
// get_path against the contract of create_path (c10_tree.cpp): n new nodes below the parent
static const Attribute* g_ca; static size_t g_cn; static const Variant* g_cd; static Node* g_cp; static Node* g_cr; static unsigned g_calls;
extern "C" Node* vf_model___ZN4cali8internal12MetadataTree11create_pathERKNS_9AttributeEmPKNS_7VariantEPNS_4NodeE(MetadataTree*, const Attribute& a, size_t n, const Variant* d, Node* p) { g_ca = &a; g_cn = n; g_cd = d; g_cp = p; ++g_calls; return g_cr; }
static inline void path_lookup(unsigned shape)
{
    T s(3, shape); g_cr = ND_BOOL() ? nullptr : g_chunk[0].p(); const int p = (int) ND_BELOW(4) - 1; const unsigned a = ND_BELOW(2); const unsigned v[2] = { (unsigned) ND_BELOW(4), (unsigned) ND_BELOW(4) }; const size_t n = 1 + ND_BELOW(2);
    Variant d[2] = { T::vv(v[0]), T::vv(v[1]) };
    const int c0 = s.child(p, a, v[0]), c1 = c0 < 0 || n < 2 ? -1 : s.child(c0, a, v[1]); const size_t have = c0 < 0 ? 0 : c1 < 0 ? 1 : 2;
    Node* r = s.t->get_path(s.attr[a], n, d, p < 0 ? nullptr : s.n[p]);
    if (have >= n) ENSURES(g_calls == 0 && r == s.nd(n == 1 ? c0 : c1), "an existing path is found again");
    else ENSURES(g_calls == 1 && r == g_cr && g_cn == n - have && g_cd == d + have && g_cp == s.nd(have == 0 ? p : c0) && g_ca == &s.attr[a], "exactly the missing part is created, below the existing prefix");
    s.intact(0);
    REACH("end");
}
SHAPE_CONTRACTS(path_lookup)

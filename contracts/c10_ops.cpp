#include "c10_fix.h"
// the path operations against the contracts of the find-or-create functions (c10_tree.cpp, c10_path.cpp):
// the result is a node with the requested attribute and value below the requested parent, or null when the tree is full
static union MN { Node n; MN() {} ~MN() {} } g_m0, g_m1, g_m2, g_m3, g_m4, g_m5; static unsigned g_made, g_room; static MetadataTree::GlobalData* G() { return &g_gd.g; }
static inline Node* made(cali_id_t a, const Variant& v, Node* p)
{
    if (g_made >= g_room) return nullptr;
    MN* m = g_made == 0 ? &g_m0 : g_made == 1 ? &g_m1 : g_made == 2 ? &g_m2 : g_made == 3 ? &g_m3 : g_made == 4 ? &g_m4 : &g_m5;
    Node* x = new (&m->n) Node(60 + g_made, a, v); ++g_made; x->m_treenode.parent = p ? p : &G()->root; return x;
}
extern "C" Node* vf_model___ZN4cali8internal12MetadataTree16get_or_copy_nodeEPKNS_4NodeEPS2_(MetadataTree*, const Node* f, Node* p) { return made(f->attribute(), f->data(), p); }
extern "C" Node* vf_model___ZN4cali8internal12MetadataTree9get_childERKNS_9AttributeERKNS_7VariantEPNS_4NodeE(MetadataTree*, const Attribute& a, const Variant& v, Node* p) { return made(a.id(), v, p); }
extern "C" Node* vf_model___ZN4cali8internal12MetadataTree8get_pathERKNS_9AttributeEmPKNS_7VariantEPNS_4NodeE(MetadataTree*, const Attribute& a, size_t n, const Variant* d, Node* p) { for (unsigned i = 0; i < 2; ++i) if (i < n) { p = made(a.id(), d[i], p); if (!p) return nullptr; } return p; }
// the (attribute, value) list of a path, outermost first
struct L { unsigned n, at[6], v[6]; };
static inline L lst(const T& s, int leaf) { L r; r.n = 0; int idx[3]; int k = 0; for (int d = 0; d < 3; ++d) if (leaf >= 0) { idx[k++] = leaf; leaf = s.par[leaf]; } for (int i = 2; i >= 0; --i) if (i < k) { r.at[r.n] = s.at[idx[i]]; r.v[r.n] = s.val[idx[i]]; ++r.n; } return r; }
static inline bool path_is(const T& s, Node* x, const L& l)
{
    bool ok = true; for (int k = 5; k >= 0; --k) if (k < (int) l.n) { if (!ok || !x || x == &s.g->root) return false; ok = x->attribute() == 100u + l.at[k] && x->data() == T::vv(l.v[k]); x = x->parent(); }
    return ok && (x == &s.g->root);
}
static inline L without_last(const L& l, unsigned a) { int j = -1; for (int i = 0; i < 3; ++i) if (i < (int) l.n && l.at[i] == a) j = i; L r; r.n = 0; for (int i = 0; i < 3; ++i) if (i < (int) l.n && i != j) { r.at[r.n] = l.at[i]; r.v[r.n] = l.v[i]; ++r.n; } return r; }
static inline L without_all(const L& l, unsigned a) { L r; r.n = 0; for (int i = 0; i < 3; ++i) if (i < (int) l.n && l.at[i] != a) { r.at[r.n] = l.at[i]; r.v[r.n] = l.v[i]; ++r.n; } return r; }
static inline unsigned room();
static inline void remove_first(unsigned shape) { T s(3, shape); room(); const int p = ND_BELOW(3); const unsigned a = ND_BELOW(2); const L w = without_last(lst(s, p), a); Node* r = s.t->remove_first_in_path(s.n[p], s.attr[a]); ENSURES(r ? path_is(s, r, w) : g_made >= g_room, "the innermost node of the attribute is taken out of the path, the rest keeps its order"); REACH("end"); }
static inline void replace_first(unsigned shape) { T s(4, shape); room(); const int p = (int) ND_BELOW(4) - 1; const unsigned a = ND_BELOW(2), v = ND_BELOW(4); L w = without_last(lst(s, p), a); w.at[w.n] = a; w.v[w.n++] = v; Node* r = s.t->replace_first_in_path(p < 0 ? nullptr : s.n[p], s.attr[a], T::vv(v)); ENSURES(r ? path_is(s, r, w) : g_made >= g_room, "the innermost node of the attribute is replaced by one with the new value at the end"); REACH("end"); }
static inline void replace_all(unsigned shape) { T s(4, shape); room(); const int p = (int) ND_BELOW(4) - 1; const unsigned a = ND_BELOW(2); const unsigned v[2] = { (unsigned) ND_BELOW(4), (unsigned) ND_BELOW(4) }; Variant d[2] = { T::vv(v[0]), T::vv(v[1]) }; L w = without_all(lst(s, p), a); for (int i = 0; i < 2; ++i) { w.at[w.n] = a; w.v[w.n++] = v[i]; } Node* r = s.t->replace_all_in_path(p < 0 ? nullptr : s.n[p], s.attr[a], 2, d); ENSURES(r ? path_is(s, r, w) : g_made >= g_room, "all nodes of the attribute are replaced by the new values at the end"); REACH("end"); }
CONTRACT(remove_first_deep) { remove_first(6); } CONTRACT(remove_first_mixed) { remove_first(2); }
CONTRACT(replace_first_deep) { replace_first(6); } CONTRACT(replace_first_mixed) { replace_first(2); }
CONTRACT(replace_all_deep) { replace_all(6); } CONTRACT(replace_all_mixed) { replace_all(2); }

static inline unsigned room() { g_made = 0; g_room = ND_BELOW(7); return g_room; }
CONTRACT(node_list)
{
    T s(4, 6); room(); const Node* list[3]; L w = lst(s, (int) ND_BELOW(4) - 1); Node* p = s.nd((int) w.n - 1);
    for (int i = 0; i < 3; ++i) { const int k = (int) ND_BELOW(4) - 1; list[i] = k < 0 ? nullptr : s.n[k]; if (k >= 0) { w.at[w.n] = s.at[k]; w.v[w.n++] = s.val[k]; } }
    Node* r = s.t->get_path(3, list, p);
    ENSURES(r ? path_is(s, r, w) : g_made >= g_room, "the listed nodes follow the parent in order, null entries are left out");
    REACH("end");
}

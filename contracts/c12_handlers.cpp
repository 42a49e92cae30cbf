#include "tree.h"
#include "../src/caliper/Caliper.cpp"
// begin, end and set of one attribute, for any blackboard contents, against the contracts of the blackboard (C09: an exact map)
// and of the context tree (C10: find-or-create, remove/replace the innermost occurrence)
static struct { cali_id_t key; Entry e; bool used, vis; } g_bb[3];
extern "C" bool vf_model___cali_variant_value_eq(cali_variant_t a, cali_variant_t b) { return a.value.v_uint == b.value.v_uint; }
extern "C" Entry vf_model___ZNK4cali10Blackboard3getEm(const Blackboard*, cali_id_t k) { for (int i = 0; i < 3; ++i) if (g_bb[i].used && g_bb[i].key == k) return g_bb[i].e; return Entry(); }
extern "C" void vf_model___ZN4cali10Blackboard3setEmRKNS_5EntryEb(Blackboard*, cali_id_t k, const Entry& e, bool vis) { for (int i = 0; i < 3; ++i) if (g_bb[i].key == k) { if (!g_bb[i].used) g_bb[i].vis = vis; g_bb[i].used = true; g_bb[i].e = e; return; } ENSURES(false, "only the attribute's own slots are written"); }
extern "C" void vf_model___ZN4cali10Blackboard3delEm(Blackboard*, cali_id_t k) { for (int i = 0; i < 3; ++i) if (g_bb[i].key == k) { g_bb[i].used = false; g_bb[i].e = Entry(); } }
union MN { Node n; MN() {} ~MN() {} }; static MN g_root, g_p0, g_p1, g_p2, g_a0, g_a1, g_m0, g_m1, g_m2, g_m3; static unsigned g_made;
static inline Node* made(cali_id_t a, const Variant& v, Node* p) { MN* m = g_made == 0 ? &g_m0 : g_made == 1 ? &g_m1 : g_made == 2 ? &g_m2 : &g_m3; ++g_made; Node* x = new (&m->n) Node(60 + g_made, a, v); x->m_treenode.parent = p; return x; }
static inline Node* copy_without_first(Node* path, cali_id_t a, bool& removed)
{
    Node* st[3]; int n = 0; Node* x = path; for (int i = 0; i < 3; ++i) if (x && x != &g_root.n) { st[n++] = x; x = x->parent(); }
    int rm = -1; for (int i = 0; i < 3; ++i) if (rm < 0 && i < n && st[i]->attribute() == a) rm = i;
    removed = rm >= 0; Node* r = &g_root.n; for (int i = 2; i >= 0; --i) if (i < n && i != rm) r = made(st[i]->attribute(), st[i]->data(), r);
    return r;
}
extern "C" Node* vf_model___ZNK4cali8internal12MetadataTree4rootEv(const MetadataTree*) { return &g_root.n; }
extern "C" Node* vf_model___ZN4cali8internal12MetadataTree9get_childERKNS_9AttributeERKNS_7VariantEPNS_4NodeE(MetadataTree*, const Attribute& a, const Variant& v, Node* p) { return made(a.id(), v, p ? p : &g_root.n); }
extern "C" Node* vf_model___ZN4cali8internal12MetadataTree20remove_first_in_pathEPNS_4NodeERKNS_9AttributeE(MetadataTree*, Node* p, const Attribute& a) { bool r; return copy_without_first(p, a.id(), r); }
extern "C" Node* vf_model___ZN4cali8internal12MetadataTree21replace_first_in_pathEPNS_4NodeERKNS_9AttributeERKNS_7VariantE(MetadataTree*, Node* p, const Attribute& a, const Variant& v) { bool r; return made(a.id(), v, p ? copy_without_first(p, a.id(), r) : &g_root.n); }
static unsigned g_errors;
extern "C" void vf_model___ZN12_GLOBAL__N_115log_stack_errorEPKN4cali4NodeERKNS0_9AttributeE(const Node*, const Attribute&) { ++g_errors; }
struct Lst { unsigned n; cali_id_t at[4]; uint64_t v[4]; };
struct St {
    Attribute a; int prop; Lst l[2]; Entry imm; bool has_imm; cali_id_t key;
    static Variant vv(uint64_t v) { return Variant(CALI_TYPE_UINT, &v, 8); }
    static Lst list(Node* x) { Lst r; r.n = 0; Node* st[4]; unsigned n = 0; for (int i = 0; i < 4; ++i) if (x && x != &g_root.n) { st[n++] = x; x = x->parent(); } for (int i = 3; i >= 0; --i) if ((unsigned) i < n) { r.at[r.n] = st[i]->attribute(); r.v[r.n] = st[i]->data().c_variant().value.v_uint; ++r.n; } return r; }
    bool val() const { return prop & CALI_ATTR_ASVALUE; } int slot_; int slot() const { return slot_; }
    St(int p) {
        slot_ = p & CALI_ATTR_UNALIGNED ? 1 : 0;
        prop = p | (ND_BOOL() ? CALI_ATTR_HIDDEN : 0) | (ND_BOOL() ? CALI_ATTR_NESTED : 0); new (&g_root.n) Node(CALI_INV_ID, CALI_INV_ID, Variant());
        new (&g_a0.n) Node(100, Attribute::NAME_ATTR_ID, Variant()); new (&g_a1.n) Node(101, Attribute::NAME_ATTR_ID, Variant()); a = Attribute::make_attribute(&g_a0.n);
        for (int i = 0; i < 2; ++i) { g_bb[i].key = i == 0 ? REGION_KEY : UNALIGNED_KEY; g_bb[i].used = false; g_bb[i].e = Entry(); g_bb[i].vis = ND_BOOL(); l[i].n = 0; }
        // the slot of interest holds any path of up to three nodes; the other slot is in use or not
        const unsigned n = ND_BELOW(4); Node* x = &g_root.n; Node* w = nullptr;
        for (unsigned i = 0; i < 3; ++i) { MN* m = i == 0 ? &g_p0 : i == 1 ? &g_p1 : &g_p2; Node* y = new (&m->n) Node(50 + i, 100 + ND_BELOW(2), vv(ND_U64())); y->m_treenode.parent = x; x = y; if (i + 1 == n) w = x; }
        if (n) { g_bb[slot()].used = true; g_bb[slot()].e = Entry(w); }
        l[slot()] = list(w);
        has_imm = ND_BOOL(); imm = Entry(a, vv(ND_U64())); g_bb[2].key = 100; g_bb[2].used = has_imm; g_bb[2].e = has_imm ? imm : Entry(); g_bb[2].vis = true;
        key = get_blackboard_key(100, prop);
    }
    Lst now(int i) const { return g_bb[i].used ? list(g_bb[i].e.node()) : Lst { 0 }; }
    static bool eq(const Lst& a, const Lst& b) { bool r = a.n == b.n; for (unsigned i = 0; i < 4; ++i) if (i < a.n && i < b.n) r = r && a.at[i] == b.at[i] && a.v[i] == b.v[i]; return r; }
    void others(int changed) const { for (int i = 0; i < 3; ++i) if (i != changed) { if (i < 2) ENSURES(eq(now(i), l[i]), "the other stacks are left alone"); else ENSURES(g_bb[2].used == has_imm && (!has_imm || same(g_bb[2].e, imm)), "values stored directly are left alone"); } }
    Lst without(bool& found) const { const Lst& p = l[slot()]; int rm = -1; for (int i = 0; i < 3; ++i) if (i < (int) p.n && p.at[i] == 100) rm = i; found = rm >= 0; Lst r; r.n = 0; for (int i = 0; i < 3; ++i) if (i < (int) p.n && i != rm) { r.at[r.n] = p.at[i]; r.v[r.n++] = p.v[i]; } return r; }
};
static Blackboard* BB() { return (Blackboard*) g_bb; } static MetadataTree* TR() { return (MetadataTree*) g_bb; }
static inline void begin_set(int p, bool set)
{
    St s(p); const uint64_t v = ND_U64(); const Variant d = St::vv(v);
    if (set) handle_set(s.a, d, s.prop, *BB(), *TR()); else handle_begin(s.a, d, s.prop, *BB(), *TR());
    if (s.val()) { ENSURES(g_bb[2].used && same(g_bb[2].e, Entry(s.a, d)), "the value is stored"); if (!s.has_imm) ENSURES(g_bb[2].vis == !(s.prop & CALI_ATTR_HIDDEN), "hidden values are not listed for snapshots"); s.others(2); }
    else { bool f; Lst w = set ? s.without(f) : s.l[s.slot()]; w.at[w.n] = 100; w.v[w.n++] = v; ENSURES(St::eq(s.now(s.slot()), w), "the value is put on top of the attribute's stack"); s.others(s.slot()); }
    REACH("end");
}
CONTRACT(begin_region) { begin_set(0, false); } CONTRACT(begin_unaligned) { begin_set(CALI_ATTR_UNALIGNED, false); } CONTRACT(begin_value) { begin_set(CALI_ATTR_ASVALUE, false); }
CONTRACT(set_region) { begin_set(0, true); } CONTRACT(set_unaligned) { begin_set(CALI_ATTR_UNALIGNED, true); } CONTRACT(set_value) { begin_set(CALI_ATTR_ASVALUE, true); }
static inline void end_op(int p)
{
    St s(p); g_errors = 0; const Lst& l = s.l[s.slot()]; bool found = false; const Lst w = s.without(found); const bool top = l.n > 0 && l.at[l.n - 1] == 100;
    const bool ok = s.val() ? s.has_imm : s.slot() ? found : top;
    const BlackboardEntry cur = load_current_entry(s.a, s.key, *BB());
    ENSURES(cur.entry.empty() == !ok && (g_errors > 0) == !ok, "ending what is not open (or not on top) is an error, and nothing else is");
    if (ok) {
        uint64_t top_v = 0; for (int i = 0; i < 3; ++i) if (i < (int) l.n && l.at[i] == 100) top_v = l.v[i];
        ENSURES(s.val() ? same(cur.entry, s.imm) : cur.entry.value().c_variant().value.v_uint == top_v, "the innermost value is the one that ends");
        handle_end(s.a, s.prop, cur, s.key, *BB(), *TR());
        if (s.val()) { ENSURES(!g_bb[2].used, "the value is gone"); s.others(2); }
        else { ENSURES(St::eq(s.now(s.slot()), w) && g_bb[s.slot()].used == (w.n > 0), "exactly the innermost value is taken off the stack"); s.others(s.slot()); }
    }
    REACH("end");
}
CONTRACT(end_region) { end_op(0); } CONTRACT(end_unaligned) { end_op(CALI_ATTR_UNALIGNED); } CONTRACT(end_value) { end_op(CALI_ATTR_ASVALUE); }

#include "tree.h"
#include "reader/RecordSelector.cpp"
// RecordSelector::pass on records with a path of two nodes and an immediate value, of any attributes and values, and one condition
static uint64_t g_val[2]; static bool g_known; static unsigned g_calls;
union MN { Node n; MN() {} ~MN() {} }; static MN g_attr[2], g_node[6];
// callee contracts: the database finds the attribute of the first condition; its value text reads as any number of the attribute's type
extern "C" cali_variant_t vf_model___ZN4cali7Variant11from_stringE14cali_attr_typePKc(cali_attr_type, const char*) { return cali_make_variant_from_uint(g_val[g_calls < 2 ? g_calls : 1]); }
extern "C" int vf_model__cali_variant_compare(cali_variant_t a, cali_variant_t b) { return a.value.v_uint < b.value.v_uint ? -1 : a.value.v_uint > b.value.v_uint; }
extern "C" bool vf_model___cali_variant_value_eq(cali_variant_t a, cali_variant_t b) { return a.value.v_uint == b.value.v_uint; }
struct Db : public CaliperMetadataAccessInterface {
    Node* node(cali_id_t) const { return nullptr; } Attribute get_attribute(cali_id_t) const { return Attribute(); }
    Attribute get_attribute(const std::string&) const { return g_known ? Attribute(&g_attr[0].n) : Attribute(); }
    std::vector<Attribute> get_all_attributes() const { vf_assume(false); return std::vector<Attribute>(); } Attribute create_attribute(const std::string&, cali_attr_type, int, int, const Attribute*, const Variant*) { return Attribute(); }
    Node* make_tree_entry(std::size_t, const Node**, Node*) { return nullptr; } std::vector<Entry> get_globals() { vf_assume(false); return std::vector<Entry>(); }
};
union Sel { RecordSelector::RecordSelectorImpl s; Sel() {} ~Sel() {} }; static Sel g_sel;
union Cnd { QuerySpec::Condition c[2]; Cnd() {} ~Cnd() {} }; static Cnd g_cond;
union Lst { std::vector<Entry> v; Lst() {} ~Lst() {} }; static Lst g_list; union Ent { Entry e[2]; Ent() {} ~Ent() {} }; static Ent g_ent; union UDb { Db d; UDb() {} ~UDb() {} }; static UDb g_db;
template <class T> static void vec(std::vector<T>& v, T* a, unsigned n) { v._M_impl._M_start = a; v._M_impl._M_finish = v._M_impl._M_end_of_storage = a + n; }
template <int OP, bool SWAP> static inline void select_one()
{
    typedef QuerySpec::Condition C; new (&g_db.d) Db;
    new (&g_attr[0].n) Node(40, 8, Variant()); new (&g_attr[1].n) Node(41, 8, Variant()); g_known = ND_BOOL(); g_calls = 0; g_val[0] = g_val[1] = ND_BELOW(256);
    // a path of two nodes and an immediate value, in either order
    uint64_t v[2], iv = ND_BELOW(256); bool a0[2]; const bool ia = ND_BOOL(); for (unsigned i = 0; i < 2; ++i) { v[i] = ND_BELOW(256); a0[i] = ND_BOOL(); uint64_t u = v[i]; new (&g_node[i].n) Node(50 + i, a0[i] ? 40 : 41, Variant(CALI_TYPE_UINT, &u, 8)); } g_node[0].n.append(&g_node[1].n);
    const int op = OP; const uint64_t cv = g_val[0]; const unsigned n = 2;
    auto meets = [&](bool at, uint64_t x) { return g_known && at && (op == C::Exist || op == C::NotExist ? true : op == C::Equal || op == C::NotEqual ? x == cv : op == C::LessThan ? x < cv : op == C::GreaterThan ? x > cv : op == C::LessOrEqual ? x <= cv : x >= cv); };
    g_ent.e[0] = Entry(&g_node[1].n); g_ent.e[1] = Entry(Attribute(&g_attr[ia ? 0 : 1].n), Variant(CALI_TYPE_UINT, &iv, 8)); if (SWAP) { g_ent.e[1] = Entry(&g_node[1].n); g_ent.e[0] = Entry(Attribute(&g_attr[ia ? 0 : 1].n), Variant(CALI_TYPE_UINT, &iv, 8)); }
    const bool any = meets(a0[0], v[0]) || meets(a0[1], v[1]) || meets(ia, iv);
    vec(g_list.v, g_ent.e, n); vec(g_sel.s.m_filters, g_cond.c, 1); g_cond.c[0].op = (C::Op) op;
    const bool neg = op == C::NotExist || op == C::NotEqual;
    const bool got = g_sel.s.pass(g_db.d, g_list.v);
    ENSURES(got == (neg ? !any : any), "a record passes exactly if an occurrence of the attribute on any level meets the condition (negated existence and equality: if none does)"); REACH("end");
}
CONTRACT(select_exist) { select_one<QuerySpec::Condition::Exist, false>(); }
CONTRACT(select_exist_swap) { select_one<QuerySpec::Condition::Exist, true>(); }
CONTRACT(select_notexist) { select_one<QuerySpec::Condition::NotExist, false>(); }
CONTRACT(select_notexist_swap) { select_one<QuerySpec::Condition::NotExist, true>(); }
CONTRACT(select_eq) { select_one<QuerySpec::Condition::Equal, false>(); }
CONTRACT(select_eq_swap) { select_one<QuerySpec::Condition::Equal, true>(); }
CONTRACT(select_ne) { select_one<QuerySpec::Condition::NotEqual, false>(); }
CONTRACT(select_ne_swap) { select_one<QuerySpec::Condition::NotEqual, true>(); }
CONTRACT(select_lt) { select_one<QuerySpec::Condition::LessThan, false>(); }
CONTRACT(select_lt_swap) { select_one<QuerySpec::Condition::LessThan, true>(); }
CONTRACT(select_gt) { select_one<QuerySpec::Condition::GreaterThan, false>(); }
CONTRACT(select_gt_swap) { select_one<QuerySpec::Condition::GreaterThan, true>(); }
CONTRACT(select_le) { select_one<QuerySpec::Condition::LessOrEqual, false>(); }
CONTRACT(select_le_swap) { select_one<QuerySpec::Condition::LessOrEqual, true>(); }
CONTRACT(select_ge) { select_one<QuerySpec::Condition::GreaterOrEqual, false>(); }
CONTRACT(select_ge_swap) { select_one<QuerySpec::Condition::GreaterOrEqual, true>(); }

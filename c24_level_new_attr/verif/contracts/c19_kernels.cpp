// aggregation operators: a kernel's result entries carry its whole state, so that aggregating them into another kernel combines both, for any two states; and one record adds exactly its matching values
#include "tree.h"
#ifndef VF_NATIVE
#include "reader/Aggregator.cpp"
union NB { Node n; NB() {} ~NB() {} Node* p() { return &n; } };
static Node* mk(NB& b, cali_id_t id) { return new (&b.n) Node(id, Attribute::NAME_ATTR_ID, Variant()); }
static NB g_nb[8]; static Attribute g_t1, g_d1, g_t2, g_d2, g_res, g_cnt, g_oth; static Entry g_out[4]; static unsigned g_nout;
// trusted model: division
extern "C" Variant vf_model___ZN4cali7Variant3divEm(Variant*, uint64_t) { return nd_scalar_of(CALI_TYPE_DOUBLE); }
struct Db : public CaliperMetadataAccessInterface {
    Node* node(cali_id_t) const override { return nullptr; } Attribute get_attribute(cali_id_t) const override { return Attribute(); } Attribute get_attribute(const std::string&) const override { return Attribute(); } std::vector<Attribute> get_all_attributes() const override { return std::vector<Attribute>(); }
    Attribute create_attribute(const std::string&, cali_attr_type, int, int, const Attribute*, const Variant*) override { return Attribute(); } Node* make_tree_entry(std::size_t, const Node*[], Node*) override { return nullptr; } std::vector<Entry> get_globals() override { return std::vector<Entry>(); }
};
static Db g_db;
template <class T> union Raw { T v; Raw() {} ~Raw() {} };
static void attrs() { g_t1 = Attribute(mk(g_nb[0], 101)); g_d1 = Attribute(mk(g_nb[1], 102)); g_t2 = Attribute(mk(g_nb[2], 103)); g_d2 = Attribute(mk(g_nb[3], 104)); g_res = Attribute(mk(g_nb[4], 105)); g_cnt = Attribute(mk(g_nb[5], 106)); g_oth = Attribute(mk(g_nb[6], 107)); g_nout = 0; }
static void set(AggregationAttributeManager& m, Attribute t, Attribute d) { m.m_target_attr = t; m.m_derived_attr = d; }
static Variant ival() { int64_t i = (int64_t) ND_U64(); return Variant(CALI_TYPE_INT, &i, sizeof i); }
static Variant state() { return ND_BOOL() ? Variant() : ival(); }
static bool eq(const Variant& a, const Variant& b) { return a.c_variant().type_and_size == b.c_variant().type_and_size && a.c_variant().value.v_uint == b.c_variant().value.v_uint; }
static int64_t num(const Variant& v) { return v.c_variant().value.v_int; }
static Variant ivar(int64_t i) { return Variant(CALI_TYPE_INT, &i, sizeof i); }
static Variant sum(const Variant& a, const Variant& b) { return a.empty() ? b : b.empty() ? a : ivar((int64_t) ((uint64_t) num(a) + (uint64_t) num(b))); }
static Variant lo(const Variant& a, const Variant& b) { return a.empty() ? b : b.empty() ? a : num(a) < num(b) ? a : b; }
static Variant hi(const Variant& a, const Variant& b) { return a.empty() ? b : b.empty() ? a : num(a) > num(b) ? a : b; }
typedef std::vector<Entry> L;
static void list(Raw<L>& l, Entry* e, unsigned n) { l.v._M_impl._M_start = e; l.v._M_impl._M_finish = e + n; l.v._M_impl._M_end_of_storage = e + n; }
// the record results are appended to, with room for them
static void results(Raw<L>& l) { list(l, g_out, 0); l.v._M_impl._M_end_of_storage = g_out + 4; }
// the record has room: it never grows
extern "C" void vf_model___ZNSt6vectorIN4cali5EntryESaIS1_EE17_M_realloc_insertIJS1_EEEvN9__gnu_cxx17__normal_iteratorIPS1_S3_EEDpOT_(void*, Entry*, Entry*) { ENSURES(false, "few results"); }
extern "C" void vf_model___ZNSt6vectorIN4cali5EntryESaIS1_EE17_M_realloc_insertIJRKS1_EEEvN9__gnu_cxx17__normal_iteratorIPS1_S3_EEDpOT_(void*, Entry*, const Entry*) { ENSURES(false, "few results"); }
static void count(Raw<L>& l) { Entry* f = l.v._M_impl._M_finish; g_nout = f == g_out ? 0 : f == g_out + 1 ? 1 : f == g_out + 2 ? 2 : f == g_out + 3 ? 3 : 4; ENSURES(l.v._M_impl._M_start == g_out && g_nout < 4, "few results"); }
// a record of up to two entries over the operator's attributes and an unrelated one
static Entry g_in[2]; static unsigned g_nin;
static void record(Raw<L>& l) { g_nin = ND_BELOW(3); for (int i = 0; i < 2; ++i) { const unsigned k = ND_BELOW(4); g_in[i] = Entry(k == 0 ? g_t1 : k == 1 ? g_d1 : k == 2 ? g_cnt : g_oth, ival()); } list(l, g_in, g_nin); }
static bool on(unsigned i, const Attribute& a) { return i < g_nin && g_in[i].m_node == a.m_node; }
template <class K, class F> static void simple(bool merge, Variant K::*st, F f, const char*)
{
    attrs(); Raw<typename K::Config> c; set(c.v.m_attr_mgr, g_t1, g_d1); K a(&c.v), b(&c.v); a.*st = state(); b.*st = state(); const Variant a0 = a.*st, b0 = b.*st; Raw<L> l;
    if (merge) { results(l); a.append_result(g_db, l.v); count(l); b.aggregate(g_db, l.v); ENSURES(eq(b.*st, f(b0, a0)), "aggregating a result combines both states"); ENSURES(eq(a.*st, a0), "writing a result keeps the state"); }
    else { record(l); Variant x = b0; if (on(0, g_t1) || on(0, g_d1)) x = f(x, g_in[0].m_value); if (on(1, g_t1) || on(1, g_d1)) x = f(x, g_in[1].m_value); const int n = b.aggregate(g_db, l.v); ENSURES(eq(b.*st, x), "a record adds exactly its matching values"); ENSURES((n > 0) == (on(0, g_t1) || on(0, g_d1) || on(1, g_t1) || on(1, g_d1)), "a record matches if it holds the attribute or its result"); }
    REACH("end");
}
CONTRACT(sum_merge) { simple<SumKernel>(true, &SumKernel::m_sum, sum, "sum"); }
CONTRACT(sum_step) { simple<SumKernel>(false, &SumKernel::m_sum, sum, "sum"); }
CONTRACT(min_merge) { simple<MinKernel>(true, &MinKernel::m_min, lo, "min"); }
CONTRACT(min_step) { simple<MinKernel>(false, &MinKernel::m_min, lo, "min"); }
CONTRACT(max_merge) { simple<MaxKernel>(true, &MaxKernel::m_max, hi, "max"); }
CONTRACT(max_step) { simple<MaxKernel>(false, &MaxKernel::m_max, hi, "max"); }
static void avg(bool merge)
{
    attrs(); Raw<AvgKernel::Config> c; set(c.v.m_sum_attr, g_t1, g_d1); set(c.v.m_avg_attr, g_t1, g_res); c.v.m_count_attr.m_attr = g_cnt; AvgKernel a(&c.v), b(&c.v); a.m_count = ND_U64(); b.m_count = ND_U64(); a.m_sum = a.m_count ? ival() : Variant(); b.m_sum = b.m_count ? ival() : Variant(); REQUIRES(a.m_count < (1ull << 32) && b.m_count < (1ull << 32));
    const uint64_t ac = a.m_count, bc = b.m_count; const Variant as = a.m_sum, bs = b.m_sum; Raw<L> l;
    if (merge) { results(l); a.append_result(g_db, l.v); count(l); b.aggregate(g_db, l.v); ENSURES(b.m_count == ac + bc && eq(b.m_sum, sum(bs, as)), "aggregating a result combines both states"); ENSURES(g_nout == (ac ? 3u : 0u), "a result is written exactly if there are values"); }
    else { record(l); for (int i = 0; i < 2; ++i) if (on(i, g_cnt)) { uint64_t u = ND_BELOW(1ull << 32); g_in[i].m_value = Variant(CALI_TYPE_UINT, &u, 8); }
        uint64_t xc = bc; Variant x = bs; for (int i = 0; i < 2; ++i) { if (on(i, g_t1)) { x = sum(x, g_in[i].m_value); ++xc; } else if (on(i, g_d1)) x = sum(x, g_in[i].m_value); else if (on(i, g_cnt)) xc += g_in[i].m_value.c_variant().value.v_uint; }
        b.aggregate(g_db, l.v); ENSURES(b.m_count == xc && eq(b.m_sum, x), "a record adds exactly its values"); }
    REACH("end");
}
CONTRACT(avg_merge) { avg(true); }
CONTRACT(avg_step) { avg(false); }
CONTRACT(count_merge)
{
    attrs(); Raw<CountKernel::Config> c; c.v.m_count_attr.m_attr = g_cnt; CountKernel a(&c.v), b(&c.v); const uint64_t ac = ND_U64(), bc = ND_U64(); a.m_count = ac; b.m_count = bc; Raw<L> l;
    results(l); a.append_result(g_db, l.v); count(l); ENSURES(g_nout == (ac ? 1u : 0u), "a count is written exactly if there is one"); if (g_nout) { b.aggregate(g_db, l.v); ENSURES(b.m_count.load() == ac + bc, "counts add up"); } REACH("end");
}
CONTRACT(count_step)
{
    attrs(); Raw<CountKernel::Config> c; c.v.m_count_attr.m_attr = g_cnt; CountKernel b(&c.v); const uint64_t bc = ND_U64(); b.m_count = bc; Raw<L> l; record(l);
    for (int i = 0; i < 2; ++i) if (on(i, g_cnt)) { uint64_t u = ND_U64(); g_in[i].m_value = Variant(CALI_TYPE_UINT, &u, 8); } REQUIRES(!(on(0, g_cnt) && on(1, g_cnt)));
    b.aggregate(g_db, l.v); const uint64_t d = on(0, g_cnt) ? g_in[0].m_value.c_variant().value.v_uint : on(1, g_cnt) ? g_in[1].m_value.c_variant().value.v_uint : 1; ENSURES(b.m_count.load() == bc + d, "a record counts once, or as often as its count says"); REACH("end");
}
static void pct(int which, bool a_empty)
{
    attrs(); Raw<PercentTotalKernel::Config> c; set(c.v.m_sum_attr, g_t1, g_d1); c.v.m_result_attr.m_attr = g_res; new (&c.v.m_total) Variant(state()); PercentTotalKernel a(&c.v), b(&c.v); a.m_sum = a_empty ? Variant() : ival(); a.m_isum = state(); b.m_sum = state(); b.m_isum = state();
    const Variant as = a.m_sum, bs = b.m_sum, bi = b.m_isum, t = c.v.m_total; Raw<L> l;
    if (which == 0) { results(l); a.append_result(g_db, l.v); count(l); b.aggregate(g_db, l.v); ENSURES(eq(b.m_sum, sum(bs, as)) && eq(b.m_isum, sum(bi, as)) && eq(c.v.m_total, sum(t, as)), "aggregating a result adds its own sum, to the total as well"); }
    else { record(l); Variant d; if (on(0, g_t1) || on(0, g_d1)) d = sum(d, g_in[0].m_value); if (on(1, g_t1) || on(1, g_d1)) d = sum(d, g_in[1].m_value);
        if (which == 1) { b.aggregate(g_db, l.v); ENSURES(eq(b.m_sum, sum(bs, d)) && eq(b.m_isum, sum(bi, d)) && eq(c.v.m_total, sum(t, d)), "a record adds its values to the sums and the total"); }
        else { b.parent_aggregate(g_db, l.v); ENSURES(eq(b.m_sum, bs) && eq(b.m_isum, sum(bi, d)) && eq(c.v.m_total, t), "a child's record adds to the inclusive sum only"); } }
    REACH("end");
}
CONTRACT(pct_merge) { if (ND_BOOL()) pct(0, true); else pct(0, false); }
CONTRACT(pct_step) { pct(1, true); }
CONTRACT(pct_parent) { pct(2, true); }
static void ratio(bool e1, bool e2)
{
    attrs(); Raw<ScaledRatioKernel::Config> c; set(c.v.m_tgt1, g_t1, g_d1); set(c.v.m_tgt2, g_t2, g_d2); c.v.m_ratio_attr.m_attr = g_res; c.v.m_scale = 1.0; ScaledRatioKernel a(&c.v), b(&c.v); a.m_sum1 = e1 ? Variant() : ival(); a.m_sum2 = e2 ? Variant() : ival(); b.m_sum1 = state(); b.m_sum2 = state();
    const Variant a1 = a.m_sum1, a2 = a.m_sum2, b1 = b.m_sum1, b2 = b.m_sum2; Raw<L> l; results(l); a.append_result(g_db, l.v); count(l); b.aggregate(g_db, l.v);
    ENSURES(eq(b.m_sum1, sum(b1, a1)) && eq(b.m_sum2, sum(b2, a2)), "aggregating a result adds both sums"); REACH("end");
}
CONTRACT(ratio_merge) { if (ND_BOOL()) { if (ND_BOOL()) ratio(true, true); else ratio(true, false); } else if (ND_BOOL()) ratio(false, true); else ratio(false, false); }
CONTRACT(any_merge)
{
    attrs(); Raw<AnyKernel::Config> c; set(c.v.m_attr, g_t1, g_d1); AnyKernel a(&c.v), b(&c.v); a.m_val = state(); b.m_val = state(); const Variant a0 = a.m_val, b0 = b.m_val; Raw<L> l; results(l); a.append_result(g_db, l.v); count(l); b.aggregate(g_db, l.v);
    ENSURES(eq(b.m_val, b0.empty() ? a0 : b0), "a value is kept, or taken from the result"); REACH("end");
}
// the variance operator's own attributes
extern "C" bool vf_model___ZN12_GLOBAL__N_114VarianceKernel6Config25get_statistics_attributesERN4cali30CaliperMetadataAccessInterfaceERNS0_20StatisticsAttributesE(void*, void*, VarianceKernel::StatisticsAttributes* a) { a->variance = g_res; a->sum = g_d1; a->sqsum = g_d2; a->count = g_cnt; return true; }
static void var(bool merge, unsigned k)
{
    attrs(); Raw<VarianceKernel::Config> c; c.v.m_target_attr = g_t1; VarianceKernel a(&c.v), b(&c.v); const uint64_t ac = ND_U64(), bc = ND_U64(); a.m_count = ac; b.m_count = bc; REQUIRES(ac < (1ull << 40) && bc < (1ull << 40)); const double as = ND_DOUBLE(), aq = ND_DOUBLE(), bs = ND_DOUBLE(), bq = ND_DOUBLE(); a.m_sum = as; a.m_sqsum = aq; b.m_sum = bs; b.m_sqsum = bq; Raw<L> l;
    if (merge) { results(l); a.append_result(g_db, l.v); Entry* f = l.v._M_impl._M_finish; ENSURES(f == g_out + (ac ? 4 : 0), "a result is written exactly if there are values"); if (ac) { b.aggregate(g_db, l.v); ENSURES(b.m_count == ac + bc && bits(b.m_sum) == bits(bs + as) && bits(b.m_sqsum) == bits(bq + aq), "aggregating a result combines both states"); } }
    else { static Entry e[1]; const double v = ND_DOUBLE(); uint64_t u = ND_BELOW(1ull << 40); e[0] = Entry(k == 0 ? g_t1 : k == 1 ? g_d1 : k == 2 ? g_d2 : k == 3 ? g_cnt : g_oth, k == 3 ? Variant(CALI_TYPE_UINT, &u, 8) : Variant(v)); list(l, e, 1); b.aggregate(g_db, l.v);
        ENSURES(b.m_count == bc + (k == 0 ? 1 : k == 3 ? u : 0) && bits(b.m_sum) == bits(k == 0 || k == 1 ? bs + v : bs) && bits(b.m_sqsum) == bits(k == 0 ? bq + v * v : k == 2 ? bq + v : bq), "a record adds exactly its values"); }
    REACH("end");
}
CONTRACT(var_merge) { var(true, 0); }
CONTRACT(var_step_value) { var(false, 0); }
CONTRACT(var_step_sum) { var(false, 1); }
CONTRACT(var_step_sqsum) { var(false, 2); }
CONTRACT(var_step_count) { var(false, 3); }
CONTRACT(var_step_other) { var(false, 4); }
#endif

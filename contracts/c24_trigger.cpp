// the event callbacks: exactly one snapshot for a selected event, none for others, with the event's attribute and value, for any filter decisions, attribute properties, and current regions
#include "tree.h"
#ifndef VF_NATIVE
#include "services/event/EventTrigger.cpp"
union NB { Node n; NB() {} ~NB() {} Node* p() { return &n; } };
static Node* mk(NB& b, cali_id_t id, cali_id_t attr, const Variant& v, Node* parent = nullptr) { Node* n = new (&b.n) Node(id, attr, v); if (parent) parent->append(n); return n; }
static NB g_box[12]; static Node *g_A, *g_B, *g_evt[3];
static char g_txt[8][2]; static bool g_pass[8], g_in[8]; static int g_typeA, g_typeB, g_propA; static Entry g_cur, g_bb; static bool g_has_ctx; static Entry g_ctx; static char g_f1, g_f2; static char g_made;
static int g_push, g_repl, g_mk; static unsigned g_sn; static Entry g_s[3], g_target; static Node *g_mkattr, *g_mkparent; static Variant g_mkval; static ChannelBody *g_ch;
// the library's virtual interface: only attribute look-up is used
struct Meta : public CaliperMetadataAccessInterface {
    Node* node(cali_id_t) const override { return nullptr; } Attribute get_attribute(cali_id_t id) const override; Attribute get_attribute(const std::string&) const override { return Attribute(); } std::vector<Attribute> get_all_attributes() const override { return std::vector<Attribute>(); }
    Attribute create_attribute(const std::string&, cali_attr_type, int, int, const Attribute*, const Variant*) override { return Attribute(); } Node* make_tree_entry(std::size_t, const Node*[], Node*) override { return nullptr; } std::vector<Entry> get_globals() override { return std::vector<Entry>(); }
};
// trusted models: the Caliper interface the callbacks use
extern "C" cali_attr_type vf_model___ZNK4cali9Attribute4typeEv(const Attribute* a) { return (cali_attr_type) (a->m_node == g_A ? g_typeA : a->m_node == g_B ? g_typeB : CALI_TYPE_UINT); }
extern "C" int vf_model___ZNK4cali9Attribute10propertiesEv(const Attribute* a) { return a->m_node == g_A ? g_propA : 0; }
static Attribute lookup(cali_id_t id) { Node* n = id == 50 ? g_A : id == 60 ? g_B : id >= 70 && id < 73 ? g_evt[id - 70] : nullptr; ENSURES(n, "only attributes that exist are looked up"); return Attribute(n); }
Attribute Meta::get_attribute(cali_id_t id) const { return lookup(id); }
extern "C" Attribute vf_model___ZNK4cali7Caliper13get_attributeEm(const Caliper*, cali_id_t id) { return lookup(id); }
extern "C" bool vf_model___ZN4cali12RegionFilter5matchERKNS_7VariantERKNS0_6FilterE(const Variant* v, const RegionFilter::Filter* f) { const uint64_t k = ((uint64_t) v->data() - (uint64_t) g_txt) / 2; ENSURES(k < 8, "filters are applied to region names"); return (const char*) f == &g_f1 ? g_pass[k < 8 ? k : 0] : g_in[k < 8 ? k : 0]; }
extern "C" Entry vf_model___ZN4cali7Caliper3getEPNS_11ChannelBodyERKNS_9AttributeE(Caliper*, ChannelBody* c, const Attribute* a) { ENSURES(c == g_ch && a->m_node == g_A, "the current value of the event's attribute on this channel"); return g_cur; }
extern "C" Entry vf_model___ZN4cali7Caliper20get_blackboard_entryERKNS_9AttributeE(Caliper*, const Attribute* a) { ENSURES(a->m_node == g_A, "the blackboard entry of the event's attribute"); return g_bb; }
extern "C" void vf_model___ZN4cali7Caliper12pull_contextERNS_15SnapshotBuilderE(Caliper*, SnapshotBuilder* b) { if (g_has_ctx) b->append(g_ctx); }
extern "C" Node* vf_model___ZN4cali7Caliper15make_tree_entryERKNS_9AttributeERKNS_7VariantEPNS_4NodeE(Caliper*, const Attribute* a, const Variant* v, Node* parent) { ++g_mk; g_mkattr = a->m_node; g_mkval = *v; g_mkparent = parent; return g_box[9].p(); }
static void note(ChannelBody* c, SnapshotView v) { ENSURES(c == g_ch, "the snapshot is taken on the callback's channel"); g_sn = v.size(); for (unsigned i = 0; i < 3 && i < g_sn; ++i) g_s[i] = v[i]; }
extern "C" void vf_model___ZN4cali7Caliper13push_snapshotEPNS_11ChannelBodyENS_12SnapshotViewE(Caliper*, ChannelBody* c, SnapshotView v) { ++g_push; note(c, v); }
extern "C" void vf_model___ZN4cali7Caliper21push_snapshot_replaceEPNS_11ChannelBodyENS_12SnapshotViewERKNS_5EntryE(Caliper*, ChannelBody* c, SnapshotView v, const Entry* t) { ++g_repl; note(c, v); g_target = *t; }
static Variant txt(unsigned k) { return Variant(CALI_TYPE_STRING, g_txt[k], 2); }
static bool branch(bool marker, int type, unsigned k) { return marker && type == CALI_TYPE_STRING && g_in[k]; }
static void callback(int which)
{
    union U { EventTrigger t; U() {} ~U() {} } u; EventTrigger& t = u.t;
    g_typeA = ND_BOOL() ? CALI_TYPE_STRING : CALI_TYPE_INT; g_typeB = ND_BOOL() ? CALI_TYPE_STRING : CALI_TYPE_UINT; g_propA = (int) ND_U32();
    g_A = mk(g_box[0], 50, Attribute::NAME_ATTR_ID, Variant()); g_B = mk(g_box[1], 60, Attribute::NAME_ATTR_ID, Variant()); for (int i = 0; i < 3; ++i) g_evt[i] = mk(g_box[2 + i], 70 + i, Attribute::NAME_ATTR_ID, Variant());
    static cali_id_t ids[3] = { 70, 71, 72 }; const bool mA = ND_BOOL(), mB = ND_BOOL();
    Node* other = mk(g_box[5], 80, 81, Variant(), g_A); (void) other; if (mA) mk(g_box[6], 82, 90, Variant(CALI_TYPE_USR, ids, sizeof ids), g_A); if (mB) mk(g_box[7], 83, 90, Variant(CALI_TYPE_USR, ids, sizeof ids), g_B);
    t.marker_attr = Attribute(mk(g_box[8], 90, Attribute::NAME_ATTR_ID, Variant())); mk(g_box[9], 99, 70, Variant());
    new (&t.event_root_node) Node(CALI_INV_ID, CALI_INV_ID, Variant()); t.enable_snapshot_info = ND_BOOL(); t.region_count_entry = Entry(Attribute(g_B), Variant(cali_make_variant_from_uint(1)));
    memset((void*) &t.region_filter, 0, sizeof t.region_filter); memset((void*) &t.branch_filter, 0, sizeof t.branch_filter); const bool hasf = ND_BOOL(), hasb = ND_BOOL(), hase = ND_BOOL();
    if (hase) t.region_filter.m_exclude_filters._M_ptr = (RegionFilter::Filter*) &g_f2; if (hasf) t.region_filter.m_include_filters._M_ptr = (RegionFilter::Filter*) &g_f1;
    for (int i = 0; i < 3; ++i) { g_pass[i] = ND_BOOL(); g_in[i] = ND_BOOL(); g_pass[i + 3] = ND_BOOL(); g_in[i + 3] = ND_BOOL(); }
    // the branch filter has its own answers: it shares the "exclude" filter's only when there is no exclusion
    REQUIRES(!(hase && hasb)); if (hasb) t.branch_filter.m_include_filters._M_ptr = (RegionFilter::Filter*) &g_f2;
    // current value of the event's attribute: nothing, an immediate entry, or an open region inside another one
    static NB rb[4]; Node* r2 = mk(rb[0], 101, ND_BOOL() ? 50 : 60, txt(2)); Node* r1 = mk(rb[1], 100, ND_BOOL() ? 50 : 60, txt(1), r2); Node* c1 = mk(rb[2], 102, ND_BOOL() ? 50 : 60, txt(3));
    const unsigned kind = ND_BELOW(3); g_cur = kind == 0 ? Entry() : kind == 1 ? Entry(Attribute(g_A), txt(4)) : Entry(r1); g_has_ctx = ND_BOOL(); g_ctx = ND_BOOL() ? Entry(c1) : Entry(Attribute(g_A), txt(5)); g_bb = ND_BOOL() ? Entry(r1) : Entry();
    g_ch = (ChannelBody*) rb; g_push = g_repl = g_mk = 0; const Variant v = txt(0); const Attribute attr(g_A); Meta meta; Caliper* c = (Caliper*) (CaliperMetadataAccessInterface*) &meta;
    const Entry cur = g_cur, bb = g_bb;
    if (which == 0) t.pre_begin_cb(c, g_ch, attr, v); else if (which == 1) t.pre_set_cb(c, g_ch, attr, v); else t.pre_end_cb(c, g_ch, attr, v);
    auto nodebranch = [&](Node* n, unsigned k) { return n->attribute() == 50 ? branch(mA, g_typeA, k) : branch(mB, g_typeB, k); };
    const bool inbranch = branch(mA, g_typeA, 0) || (kind == 2 && (nodebranch(r1, 1) || nodebranch(r2, 2))) || (g_has_ctx && g_ctx.m_node == c1 && nodebranch(c1, 3));
    const bool selected = mA && (g_typeA != CALI_TYPE_STRING || ((!hase || !g_in[0]) && (!hasf || g_pass[0]))) && (!hasb || inbranch);
    ENSURES(g_push + g_repl == (selected ? 1 : 0), "one snapshot for a selected event and none for another");
    if (selected) {
        const bool val = g_propA & CALI_ATTR_ASVALUE; const unsigned extra = which == 2 ? 1 : 0;
        if (!t.enable_snapshot_info) ENSURES(g_push == 1 && g_sn == extra && (!extra || same(g_s[0], t.region_count_entry)), "without trigger information only the end's region count is added");
        else {
            ENSURES(g_sn == 1 + extra && (!extra || same(g_s[1], t.region_count_entry)), "the trigger information and, at the end, the region count");
            if (val) ENSURES(g_push == 1 && g_mk == 0 && same(g_s[0], Entry(Attribute(g_evt[which]), v)), "trigger information names the event and its value");
            else ENSURES(g_repl == 1 && g_mk == 1 && g_s[0].m_node == g_box[9].p() && g_mkattr == g_evt[which] && g_mkval == v && same(g_target, bb) && (bb.empty() || g_mkparent == bb.m_node), "trigger information is added to the region path and replaces it in the snapshot");
        }
    }
    REACH("end");
}
CONTRACT(begin_selects) { callback(0); }
CONTRACT(set_selects) { callback(1); }
CONTRACT(end_selects) { callback(2); }
#endif

#include "variant.h"
#include "common/CompressedSnapshotRecord.h"
#include "caliper/common/Node.h"
#include "caliper/common/CaliperMetadataAccessInterface.h"
using namespace cali;
typedef CompressedSnapshotRecord Rec;
static inline unsigned enc(uint64_t v, unsigned char* out) { unsigned n = 0; while (v > 0x7F) { out[n++] = (unsigned char) (v | 0x80); v >>= 7; } out[n++] = (unsigned char) v; return n; }
static inline unsigned enclen(uint64_t v) { unsigned n = 1; while (v > 0x7F) { ++n; v >>= 7; } return n; }
static const uint64_t BUF = 512; static const unsigned PAD = 0;
// any record in a consistent state: counts and section positions agree with the buffer, content arbitrary
static inline void any_state(Rec& r, uint64_t len, unsigned char* buf)
{
    r.m_num_nodes = ND_BELOW(128); r.m_num_imm = ND_BELOW(128);
    r.m_imm_pos = 1 + ND_BELOW(len); r.m_imm_len = 1 + ND_BELOW(len);
    REQUIRES(r.m_imm_pos + r.m_imm_len <= len);
    r.m_needed_len = ND_U32(); r.m_skipped = ND_U32();
    buf[0] = (unsigned char) r.m_num_nodes; buf[r.m_imm_pos] = (unsigned char) r.m_num_imm;
}
#ifdef VF_NATIVE
#define NEWBUF(len) unsigned char* buf = (unsigned char*) malloc(len); for (uint64_t i = 0; i < len; ++i) buf[i] = ND_U8()
#define FREEBUF free(buf)
#else
#define NEWBUF(len) unsigned char buf[BUF + PAD]   /* arbitrary contents; bytes at and after len must stay untouched */
#define FREEBUF
#endif
#define STATE0 const uint64_t nn = r.m_num_nodes, ni = r.m_num_imm, ip = r.m_imm_pos, il = r.m_imm_len, sk = r.m_skipped, nl = r.m_needed_len
template <unsigned K> static inline void append_nodes()
{
    uint64_t len = 2 + ND_BELOW(BUF - 1);
    NEWBUF(len);
    Rec r(0, buf); r.m_buffer_len = len;
    any_state(r, len, buf);
    STATE0;
    uint64_t id[4];
    for (unsigned i = 0; i < K; ++i) id[i] = ND_U64();
    Node a(id[0], 0, Variant()), b(id[K > 1 ? 1 : 0], 0, Variant()), c(id[K > 2 ? 2 : 0], 0, Variant()), d(id[K > 3 ? 3 : 0], 0, Variant());
    const Node* nodes[4] = { &a, &b, &c, &d };
    unsigned char e[K * 10]; unsigned el = 0;
    for (unsigned i = 0; i < K; ++i) el += enc(id[i], e + el);
    uint64_t g = ND_BELOW(BUF + PAD);
#ifdef VF_NATIVE
    g = g % len;
#endif
    const unsigned char old = buf[g];
    const bool fits = nn + K < 128 && ip + il + el <= len;
    size_t s = r.append(K, nodes);
    ENSURES(s == (fits ? 0 : K) && r.num_skipped() == sk + s, "a block is skipped exactly when it does not fit");
    ENSURES(r.needed_len() == nl + el, "needed length counts the encoded size either way");
    ENSURES(r.num_nodes() == nn + (fits ? K : 0) && r.num_immediates() == ni, "node count");
    ENSURES(r.m_imm_pos == ip + (fits ? el : 0) && r.m_imm_len == il && r.size() == r.m_imm_pos + il && r.size() <= len, "section positions");
    ENSURES(buf[0] == r.num_nodes() && buf[r.m_imm_pos] == ni, "record headers equal the counts");
    if (fits) {
        uint64_t k = ND_BELOW(K * 10); REQUIRES(k < el);
        ENSURES(buf[ip + k] == e[k], "new nodes are encoded after the existing ones");
        if (g >= 1 && g < ip) ENSURES(buf[g] == old, "existing nodes are kept");
        if (g > ip && g < ip + il) ENSURES(buf[g + el] == old, "existing immediate entries are kept");
        if (g >= ip + il + el) ENSURES(buf[g] == old, "bytes behind the record are untouched");
    } else
        ENSURES(buf[g] == old, "a skipped block leaves the record untouched");
    REACH("end");
    FREEBUF;
}
CONTRACT(append_nodes_1) { append_nodes<1>(); }
CONTRACT(append_nodes_2) { append_nodes<2>(); }
template <unsigned K> static inline void append_imm()
{
    uint64_t len = 2 + ND_BELOW(BUF - 1);
    NEWBUF(len);
    Rec r(0, buf); r.m_buffer_len = len;
    any_state(r, len, buf);
    STATE0;
    cali_id_t id[4]; Variant v[4]; unsigned char e[K * 30]; unsigned el = 0;
    for (unsigned i = 0; i < K; ++i) {
        id[i] = ND_U64(); cali_variant_t c; c.type_and_size = ND_U64(); c.value.v_uint = ND_U64(); v[i] = Variant(c);
        el += enc(id[i], e + el); el += v[i].pack(e + el);
    }
    uint64_t g = ND_BELOW(BUF + PAD);
#ifdef VF_NATIVE
    g = g % len;
#endif
    const unsigned char old = buf[g];
    const bool fits = ni + K < 128 && ip + il + el <= len;
    size_t s = r.append(K, id, v);
    ENSURES(s == (fits ? 0 : K) && r.num_skipped() == sk + s, "a block is skipped exactly when it does not fit");
    ENSURES(r.needed_len() == nl + el, "needed length counts the encoded size either way");
    ENSURES(r.num_nodes() == nn && r.num_immediates() == ni + (fits ? K : 0), "entry count");
    ENSURES(r.m_imm_pos == ip && r.m_imm_len == il + (fits ? el : 0) && r.size() == ip + r.m_imm_len && r.size() <= len, "section positions");
    ENSURES(buf[0] == nn && buf[ip] == r.num_immediates(), "record headers equal the counts");
    if (fits) {
        uint64_t k = ND_BELOW(K * 30); REQUIRES(k < el);
        ENSURES(buf[ip + il + k] == e[k], "new entries are encoded after the existing ones");
        if (g >= 1 && g < ip + il && g != ip) ENSURES(buf[g] == old, "existing content is kept");
        if (g >= ip + il + el) ENSURES(buf[g] == old, "bytes behind the record are untouched");
    } else
        ENSURES(buf[g] == old, "a skipped block leaves the record untouched");
    REACH("end");
    FREEBUF;
}
CONTRACT(append_imm_1) { append_imm<1>(); }
CONTRACT(append_imm_2) { append_imm<2>(); }
// block arithmetic for any number of nodes: every node is either stored or counted as skipped, in blocks of at most 4
// end to end: a record built from any mix of entries decodes to exactly those entries
struct Db : public CaliperMetadataAccessInterface {
    Node** n; unsigned cnt;
    Node* node(cali_id_t id) const override { for (unsigned i = 0; i < cnt; ++i) if (n[i]->id() == id) return n[i]; return nullptr; }
    Attribute get_attribute(cali_id_t id) const override { return Attribute::make_attribute(node(id)); }
    Attribute get_attribute(const std::string&) const override { return Attribute(); }
    std::vector<Attribute> get_all_attributes() const override { return std::vector<Attribute>(); }
    Attribute create_attribute(const std::string&, cali_attr_type, int, int, const Attribute*, const Variant*) override { return Attribute(); }
    Node* make_tree_entry(std::size_t, const Node*[], Node*) override { return nullptr; }
    std::vector<Entry> get_globals() override { return std::vector<Entry>(); }
};
#ifdef VF_NATIVE
static const unsigned NN = 150, NI = 150;
#else
static const unsigned NN = 9, NI = 9;
#endif
CONTRACT(roundtrip)
{
    const unsigned kn = ND_BELOW(NN + 1), ki = ND_BELOW(NI + 1);
    cali_id_t nid[NN + 1], aid[NI + 1]; cali_variant_t val[NI + 1];
    Node* store[NN + 1]; const Node* nodes[NN + 1];
    for (unsigned i = 0; i < NN; ++i) { nid[i] = ND_U64(); store[i] = new Node(nid[i], 0, Variant()); nodes[i] = store[i]; }
    Variant vals[NI + 1];
    for (unsigned i = 0; i < NI; ++i) { aid[i] = ND_U64(); val[i].type_and_size = ND_U64(); REQUIRES((val[i].type_and_size & 0xFF) <= CALI_MAXTYPE); val[i].value.v_uint = ND_U64(); vals[i] = Variant(val[i]); }
    Rec r;
    // node ids and immediate entries, appended in any interleaving of two calls each
    const unsigned n1 = ND_BELOW(NN + 1), i1 = ND_BELOW(NI + 1); REQUIRES(n1 <= kn && i1 <= ki);
    size_t s = r.append(n1, nodes);
    const size_t sn1 = s; size_t si = r.append(i1, aid, vals);
    s += r.append(kn - n1, nodes + n1); si += r.append(ki - i1, aid + i1, vals + i1);
    ENSURES(r.num_nodes() + s == kn && r.num_immediates() + si == ki && r.num_skipped() == s + si, "every entry is either stored or counted as skipped");
    ENSURES(r.size() <= 512, "the record fits its buffer");
    size_t inc = 5; CompressedSnapshotRecordView v(r.data(), &inc), w = r.view();
    ENSURES(inc == 5 + r.size(), "parsing the record consumes exactly its size");
    ENSURES(v.num_nodes() == r.num_nodes() && v.num_immediates() == r.num_immediates() && w.num_nodes() == r.num_nodes() && w.num_immediates() == r.num_immediates(), "counts survive");
    cali_id_t on[NN + 1], oi[NI + 1]; Variant ov[NI + 1];
    on[NN] = 4711; oi[NI] = 4711;
    const bool which = ND_BOOL();
    if (which) { v.unpack_nodes(NN, on); v.unpack_immediate(NI, oi, ov); } else { w.unpack_nodes(NN, on); w.unpack_immediate(NI, oi, ov); }
    if (s == 0) { unsigned k = ND_BELOW(NN); if (k < kn) ENSURES(on[k] == nid[k], "nodes decode in order"); }
    if (si == 0) { unsigned k = ND_BELOW(NI); if (k < ki) { cali_variant_t c = ov[k].c_variant(); ENSURES(oi[k] == aid[k] && c.type_and_size == val[k].type_and_size && c.value.v_uint == val[k].value.v_uint, "immediate entries decode in order"); } }
    ENSURES(on[NN] == 4711 && oi[NI] == 4711, "no more elements are delivered than asked for");
    REACH("end");
    for (unsigned i = 0; i < NN; ++i) delete store[i];
}

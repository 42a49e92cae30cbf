#include "variant.h"
#include "common/NodeBuffer.h"
#include "common/SnapshotBuffer.h"
#include "common/CompressedSnapshotRecord.h"
#include "caliper/common/Node.h"
#include <vector>
#include <string>
using namespace cali;
#ifndef VF_NATIVE
// the codec by its contract (C01), as a one-byte instance
extern "C" uint64_t vf_model__vlenc_u64(uint64_t v, unsigned char* p) { p[0] = (unsigned char) v; return 1; }
extern "C" uint64_t vf_model__vldec_u64(const unsigned char* p, size_t* inc) { *inc += 1; return p[0]; }
extern "C" uint64_t vf_model__cali_variant_pack(cali_variant_t v, unsigned char* p) { p[0] = (unsigned char) v.type_and_size; p[1] = (unsigned char) v.value.v_uint; return 2; }
extern "C" cali_variant_t vf_model__cali_variant_unpack(const unsigned char* p, size_t* inc, bool* ok) { cali_variant_t v; v.type_and_size = p[0]; v.value.v_uint = p[1]; *inc += 2; if (ok) *ok = true; return v; }
#define ND_ID (cali_id_t) ND_BELOW(127)
static unsigned g_next = 3;
#define NODE_ID (cali_id_t) (g_next = g_next * 5 % 127)   /* fixed, so that positions stay concrete */
#else
#define NODE_ID ND_ID
#define ND_ID (ND_BOOL() ? (cali_id_t) ND_BELOW(300) : (cali_id_t) (ND_U64() >> 1))
#endif
struct Info { cali_id_t node, attr, parent; cali_attr_type type; uint64_t u; unsigned len; char str[8]; };
static inline Info nd_info(const cali_attr_type t, const unsigned slen, const bool parent)
{
    Info i; i.node = NODE_ID; i.attr = ND_ID; i.parent = parent ? ND_ID : CALI_INV_ID; i.type = t; i.u = 0; i.len = slen;
    if (t == CALI_TYPE_STRING || t == CALI_TYPE_USR) for (unsigned k = 0; k < slen; ++k) i.str[k] = (char) ND_U8();
    else if (t == CALI_TYPE_BOOL) i.u = ND_BOOL();
    else if (t == CALI_TYPE_TYPE) i.u = ND_BELOW(CALI_MAXTYPE + 1);
    else if (t == CALI_TYPE_DOUBLE) { double d = ND_DOUBLE(); i.u = bits(d); }
    else if (t != CALI_TYPE_INV) i.u = ND_U64();
    return i;
}
static inline Variant value_of(const Info& i)
{
    switch (i.type) {
    case CALI_TYPE_STRING: case CALI_TYPE_USR: return Variant(i.type, i.str, i.len);
    case CALI_TYPE_INT: return Variant(i.type, &i.u, sizeof(int64_t));
    case CALI_TYPE_BOOL: { bool b = i.u != 0; return Variant(i.type, &b, sizeof b); }
    case CALI_TYPE_TYPE: { cali_attr_type t = (cali_attr_type) i.u; return Variant(i.type, &t, sizeof t); }
    case CALI_TYPE_INV: return Variant();
    default: return Variant(i.type, &i.u, sizeof i.u);
    }
}
static unsigned g_n; static const Info* g_exp; static unsigned g_cnt;
static void check_info(const NodeBuffer::NodeInfo& r)
{
    ENSURES(g_n < g_cnt, "no extra nodes are delivered");
    const Info& e = g_exp[g_n++];
    ENSURES(r.node_id == e.node && r.attr_id == e.attr && r.parent_id == e.parent, "ids survive (and the absence of a parent)");
    ENSURES(r.value.type() == e.type, "value type survives");
    if (e.type == CALI_TYPE_STRING || e.type == CALI_TYPE_USR) {
        ENSURES(r.value.size() == e.len, "value size survives");
        for (unsigned k = 0; k < e.len; ++k) ENSURES(((const char*) r.value.data())[k] == e.str[k], "value bytes survive");
    } else if (e.type != CALI_TYPE_INV)
        ENSURES(r.value.c_variant().value.v_uint == value_of(e).c_variant().value.v_uint, "scalar value survives");
}
template <class... T> static inline void node_buffer(const size_t cap, const Info (&in)[3], const bool moved)
{
    NodeBuffer b(cap);
    for (unsigned i = 0; i < 3; ++i) { NodeBuffer::NodeInfo n = { in[i].node, in[i].attr, in[i].parent, value_of(in[i]) }; b.append(n); }
    ENSURES(b.count() == 3 && b.size() > 0 && b.size() <= b.m_reserved_len, "all nodes are counted and fit the buffer");
    g_exp = in; g_cnt = 3; g_n = 0;
    b.for_each(check_info);
    ENSURES(g_n == 3, "every appended node is delivered once, in order");
    if (moved) {
        // transfer by raw bytes, as done between processes
        NodeBuffer c; unsigned char* p = c.import(b.size(), b.count());
        memcpy(p, b.data(), b.size());
        g_n = 0; c.for_each(check_info);
        ENSURES(g_n == 3 && c.count() == 3, "a transferred buffer delivers the same nodes");
    }
    REACH("end");
}
// one node, any contents: what is packed is what is unpacked, and unpacking consumes exactly what packing produced
static inline void one_node(const cali_attr_type t, const unsigned len, const bool parent)
{
    const Info in[1] = { nd_info(t, len, parent) };
    NodeBuffer b(120);
    NodeBuffer::NodeInfo n = { in[0].node, in[0].attr, in[0].parent, value_of(in[0]) };
    b.append(n);
    g_exp = in; g_cnt = 1; g_n = 0;
    b.for_each(check_info);
    ENSURES(g_n == 1 && b.count() == 1 && b.size() > 0 && b.size() <= b.m_reserved_len, "the node is delivered once");
    REACH("end");
}
CONTRACT(one_int) { one_node(CALI_TYPE_INT, 0, true); }
CONTRACT(one_uint) { one_node(CALI_TYPE_UINT, 0, false); }
CONTRACT(one_double) { one_node(CALI_TYPE_DOUBLE, 0, true); }
CONTRACT(one_bool) { one_node(CALI_TYPE_BOOL, 0, true); }
CONTRACT(one_string) { one_node(CALI_TYPE_STRING, 5, true); }
CONTRACT(one_usr) { one_node(CALI_TYPE_USR, 7, false); }
#ifdef VF_NATIVE
#define CAP(x) ND_BELOW(700)
#else
#define CAP(x) x
#endif
#define NB(name, cap, t1, l1, p1, t2, l2, p2, t3, l3, p3) CONTRACT(name) { const size_t c_ = CAP(cap); const Info in[3] = { nd_info(t1, l1, p1), nd_info(t2, l2, p2), nd_info(t3, l3, p3) }; node_buffer(c_, in, true); }
NB(nodes_scalar, 0, CALI_TYPE_INT, 0, false, CALI_TYPE_UINT, 0, true, CALI_TYPE_ADDR, 0, true)
NB(nodes_scalar2, 200, CALI_TYPE_DOUBLE, 0, true, CALI_TYPE_BOOL, 0, false, CALI_TYPE_TYPE, 0, true)
NB(nodes_blob, 60, CALI_TYPE_STRING, 3, true, CALI_TYPE_USR, 5, false, CALI_TYPE_STRING, 0, true)
NB(nodes_mixed, 130, CALI_TYPE_INV, 0, true, CALI_TYPE_STRING, 7, false, CALI_TYPE_INT, 0, true)
// ---- snapshot buffer
static unsigned g_recs; static uint64_t g_ids[3][3], g_imm[3][3], g_vals[3][2];
static void check_rec(const CompressedSnapshotRecordView& v)
{
    ENSURES(g_recs < 3, "no extra records are delivered");
    const unsigned k = g_recs++;
    ENSURES(v.num_nodes() == k && v.num_immediates() == 2 - k, "record sizes survive");
    cali_id_t n[3], a[3]; Variant d[3];
    v.unpack_nodes(k, n); v.unpack_immediate(2 - k, a, d);
    for (unsigned i = 0; i < k; ++i) ENSURES(n[i] == g_ids[k][i], "nodes survive");
    for (unsigned i = 0; i < 2 - k; ++i) ENSURES(a[i] == g_imm[k][i] && d[i].type() == CALI_TYPE_UINT && d[i].c_variant().value.v_uint == g_vals[k][i], "immediate entries survive");
}
static inline void snapshot_buffer(const size_t cap)
{
    SnapshotBuffer b(cap);
    for (unsigned k = 0; k < 3; ++k) {
        CompressedSnapshotRecord r;
        for (unsigned i = 0; i < k; ++i) { g_ids[k][i] = ND_ID; Node n(g_ids[k][i], 0, Variant()); const Node* np = &n; r.append(1, &np); }
        for (unsigned i = 0; i < 2 - k; ++i) { cali_id_t a = g_imm[k][i] = ND_ID; g_vals[k][i] = ND_U8(); Variant v(CALI_TYPE_UINT, &g_vals[k][i], 8); r.append(1, &a, &v); }
        b.append(r);
    }
    ENSURES(b.count() == 3, "all records are counted");
    g_recs = 0; b.for_each(check_rec);
    ENSURES(g_recs == 3, "every record is delivered once, in order");
    SnapshotBuffer c; unsigned char* p = c.import(b.size(), b.count());
    memcpy(p, b.data(), b.size());
    g_recs = 0; c.for_each(check_rec);
    ENSURES(g_recs == 3, "a transferred buffer delivers the same records");
    REACH("end");
}
CONTRACT(snapshots_grow) { const size_t c = CAP(0); snapshot_buffer(c); }
CONTRACT(snapshots_fit) { const size_t c = CAP(64); snapshot_buffer(c); }
#ifdef VF_NATIVE
// larger histories, natively
CONTRACT(nodes_many)
{
    std::vector<std::string> strs; std::vector<NodeBuffer::NodeInfo> in;
    unsigned n = ND_BELOW(60); size_t cap = ND_BELOW(3000);
    strs.reserve(n);
    for (unsigned i = 0; i < n; ++i) { strs.push_back(std::string(ND_BELOW(ND_BOOL() ? 10 : 9000), (char) ND_U8())); in.push_back({ ND_ID, ND_ID, ND_BOOL() ? ND_ID : CALI_INV_ID, Variant(CALI_TYPE_STRING, strs[i].data(), strs[i].size()) }); }
    NodeBuffer b(cap); for (auto& i : in) b.append(i);
    unsigned k = 0;
    b.for_each([&](const NodeBuffer::NodeInfo& r) { ENSURES(k < n && r.node_id == in[k].node_id && r.attr_id == in[k].attr_id && r.parent_id == in[k].parent_id && r.value == in[k].value, "every node is delivered in order"); ++k; });
    ENSURES(k == n && b.count() == n, "all delivered");
    REACH("end");
}
#else
CONTRACT(nodes_many) { REACH("end"); }
#endif

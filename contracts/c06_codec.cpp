
#include "variant.h"
#include "common/CompressedSnapshotRecord.h"
#include "caliper/common/Node.h"
using namespace cali;
// Composition: with the codec replaced by one that satisfies its contract (C01) in a fixed size, records of
// any mix of entries decode to exactly what was appended.
#ifndef VF_NATIVE
extern "C" uint64_t vf_model__vlenc_u64(uint64_t v, unsigned char* p) { p[0] = (unsigned char) v; return 1; }
extern "C" uint64_t vf_model__vldec_u64(const unsigned char* p, size_t* inc) { *inc += 1; return p[0]; }
extern "C" uint64_t vf_model__cali_variant_pack(cali_variant_t v, unsigned char* p) { p[0] = (unsigned char) v.type_and_size; p[1] = (unsigned char) v.value.v_uint; return 2; }
extern "C" cali_variant_t vf_model__cali_variant_unpack(const unsigned char* p, size_t* inc, bool* ok) { cali_variant_t v; v.type_and_size = p[0]; v.value.v_uint = p[1]; *inc += 2; if (ok) *ok = true; return v; }
#endif
template <unsigned A, unsigned I, unsigned B, unsigned J> static inline void mix()
{
    cali_id_t nid[A + B + 1], aid[I + J + 1]; const Node* nodes[A + B + 1]; Variant vals[I + J + 1]; uint64_t vv[I + J + 1];
    char store[(A + B + 1) * sizeof(Node)];
    for (unsigned i = 0; i < A + B; ++i) { nid[i] = ND_U8(); nodes[i] = new Node(nid[i], 0, Variant()); }
    for (unsigned i = 0; i < I + J; ++i) { aid[i] = ND_U8(); vv[i] = ND_U8(); vals[i] = Variant(CALI_TYPE_UINT, &vv[i], sizeof(uint64_t)); }
    CompressedSnapshotRecord r;
    ENSURES(r.append(A, nodes) + r.append(I, aid, vals) + r.append(B, nodes + A) + r.append(J, aid + I, vals + I) == 0 && r.num_skipped() == 0, "everything fits");
    ENSURES(r.num_nodes() == A + B && r.num_immediates() == I + J, "every entry is stored");
    size_t inc = 5; CompressedSnapshotRecordView v(r.data(), &inc);
    ENSURES(inc == 5 + r.size(), "parsing the record consumes exactly its size");
    ENSURES(v.num_nodes() == A + B && v.num_immediates() == I + J, "counts survive");
    cali_id_t on[A + B + 1], oi[I + J + 1]; Variant ov[I + J + 1];
    on[A + B] = oi[I + J] = 4711;
    v.unpack_nodes(A + B + 1, on); v.unpack_immediate(I + J + 1, oi, ov);
    for (unsigned k = 0; k < A + B; ++k) ENSURES(on[k] == nid[k], "nodes decode in order");
    for (unsigned k = 0; k < I + J; ++k) ENSURES(oi[k] == aid[k] && ov[k].type() == CALI_TYPE_UINT && ov[k].c_variant().value.v_uint == vv[k], "immediate entries decode in order");
    ENSURES(on[A + B] == 4711 && oi[I + J] == 4711, "no more elements are delivered than stored");
    cali_id_t wn[A + B + 1], wi[I + J + 1]; Variant wv[I + J + 1];
    CompressedSnapshotRecordView w = r.view(); w.unpack_nodes(A + B, wn); w.unpack_immediate(I + J, wi, wv);
    for (unsigned k = 0; k < A + B; ++k) ENSURES(wn[k] == nid[k], "in-place view: nodes");
    for (unsigned k = 0; k < I + J; ++k) ENSURES(wi[k] == aid[k] && wv[k].c_variant().value.v_uint == vv[k], "in-place view: entries");
    if (A + B > 1) { cali_id_t one[2] = { 1, 4711 }; v.unpack_nodes(1, one); ENSURES(one[0] == nid[0] && one[1] == 4711, "asking for fewer elements delivers just those"); }
    REACH("end");
    for (unsigned i = 0; i < A + B; ++i) delete nodes[i];
}
CONTRACT(mix_0000) { mix<0, 0, 0, 0>(); }
CONTRACT(mix_5262) { mix<5, 2, 6, 2>(); }
CONTRACT(mix_1511) { mix<1, 5, 1, 1>(); }
CONTRACT(mix_9090) { mix<9, 0, 0, 9>(); }
CONTRACT(mix_0440) { mix<0, 4, 4, 0>(); }

#include "tree.h"
#include "caliper/SnapshotRecord.h"
#ifdef VF_SUBST
#include "Blackboard.h"
#else
#include "caliper/Blackboard.h"
#endif
using namespace cali;
#ifndef VF_NATIVE
extern "C" int vf_model__ffs(int x) { for (int i = 0; i < 32; ++i) if (x & (int) (1u << i)) return i + 1; return 0; }
#endif
// Inductive contract: any table state satisfying the invariant (with up to M entries, anywhere, in any probe order),
// any one operation; the operation acts on the abstract map as specified and re-establishes the invariant.
constexpr unsigned M = 3;
static NodeBox g_box; static Node* g_node;
static inline Entry val(uint64_t v) { Entry e; e.m_node = g_node; e.m_value = Variant(CALI_TYPE_UINT, &v, 8); return e; }
struct Tab {
    Blackboard bb; unsigned n, pos[M]; cali_id_t key[M]; bool vis[M]; uint64_t v[M];
    static constexpr unsigned N = Blackboard::Nmax;
    static cali_id_t nd_key(unsigned& home) { home = ND_BELOW(N); return home + (cali_id_t) N * ND_BELOW(3); }
    Tab() {
        g_node = mk_node(g_box, 8, 8, Variant());
        n = ND_BELOW(M + 1); unsigned home[M]; for (unsigned i = 0; i < M; ++i) key[i] = CALI_INV_ID;
        for (unsigned i = 0; i < M; ++i) {
            key[i] = nd_key(home[i]); pos[i] = ND_BELOW(N); vis[i] = ND_BOOL(); v[i] = ND_U64();
            if (i >= n) continue;
            for (unsigned k = 0; k < i; ++k) REQUIRES(key[k] != key[i] && pos[k] != pos[i]);
            bb.hashtable[pos[i]].key = key[i]; bb.hashtable[pos[i]].value = val(v[i]);
            if (vis[i]) { bb.toc[pos[i] / 32] |= (int) (1u << (pos[i] % 32)); bb.toctoc |= (int) (1u << (pos[i] / 32)); }
        }
        // probing from an entry's home slot reaches it through occupied slots only
        for (unsigned i = 0; i < M; ++i) if (i < n) {
            const unsigned d = (pos[i] + N - home[i]) % N; REQUIRES(d < M);
            for (unsigned k = 0; k < M - 1; ++k) if (k < d) REQUIRES(bb.hashtable[(home[i] + k) % N].key != CALI_INV_ID);
        }
        bb.num_entries = bb.max_num_entries = n;
    }
    int idx(cali_id_t q) const { for (unsigned i = 0; i < M; ++i) if (i < n && key[i] == q) return (int) i; return -1; }
    // the invariant, for an arbitrary slot
    void inv(unsigned cnt, cali_id_t q, int visible) const {
        ENSURES(bb.num_entries == cnt && bb.max_num_entries >= cnt, "the entry count is exact");
        const unsigned j = ND_BELOW(N); const cali_id_t k = bb.hashtable[j].key;
        const bool bit = bb.toc[j / 32] & (int) (1u << (j % 32));
        ENSURES(((bb.toctoc >> (j / 32)) & 1) == (bb.toc[j / 32] != 0), "the summary bit says whether its word has entries");
        if (k == CALI_INV_ID) ENSURES(!bit, "free slots are not listed for snapshots");
        else {
            ENSURES(bb.find_existing_entry(k) == j, "every stored entry can be found from its key");
            if (k == q) ENSURES(visible < 0 || bit == (visible == 1), "the entry is listed for snapshots as it was set");
            else { int i = idx(k); ENSURES(i >= 0 && bit == vis[i], "moved entries keep their visibility in snapshots"); }
        }
    }
    void others(cali_id_t q) const {   // any other key
        unsigned h; const cali_id_t o = nd_key(h);
        if (o != q) { const Entry e = bb.get(o); const int i = idx(o); ENSURES(i < 0 ? e.empty() : !e.empty() && e.value().c_variant().value.v_uint == v[i], "all other keys keep their values"); }
    }
};
static inline void op_set(const bool exch)
{
    Tab t; unsigned h; const cali_id_t q = Tab::nd_key(h); const uint64_t nv = ND_U64(); const bool vis = ND_BOOL(); const int i = t.idx(q), c0 = t.bb.count();
    if (exch) { const Entry r = t.bb.exchange(q, val(nv), vis); ENSURES(i < 0 ? r.empty() : r.value().c_variant().value.v_uint == t.v[i], "exchange returns the previous value"); }
    else t.bb.set(q, val(nv), vis);
    const Entry e = t.bb.get(q);
    ENSURES(!e.empty() && e.value().c_variant().value.v_uint == nv, "the new value is read back");
    ENSURES(t.bb.num_skipped_entries() == 0 && t.bb.count() != c0, "nothing is skipped while there is room, and the update is counted");
    t.others(q); t.inv(t.n + (i < 0), q, i >= 0 ? t.vis[i] : vis);
    REACH("end");
}
CONTRACT(set_entry) { op_set(false); }
CONTRACT(exchange_entry) { op_set(true); }
CONTRACT(del_entry)
{
    Tab t; unsigned h; const cali_id_t q = Tab::nd_key(h); const int i = t.idx(q);
    t.bb.del(q);
    ENSURES(t.bb.get(q).empty(), "a deleted key is gone");
    t.others(q); t.inv(t.n - (i >= 0), q, -1);
    REACH("end");
}
CONTRACT(snapshot_entries)
{
    Tab t; Entry out[M]; SnapshotBuilder b(M, out); unsigned want = 0;
    for (unsigned i = 0; i < M; ++i) want += i < t.n && t.vis[i];
    t.bb.snapshot(b);
    ENSURES(b.size() == want && b.skipped() == 0, "a snapshot holds exactly the visible entries");
    for (unsigned i = 0; i < M; ++i) if (i < t.n && t.vis[i]) { bool in = false; for (unsigned k = 0; k < M; ++k) in |= k < want && out[k].value().c_variant().value.v_uint == t.v[i]; ENSURES(in, "every visible entry is in the snapshot"); }
    REACH("end");
}
CONTRACT(full_table)
{
    Tab t; unsigned h; const cali_id_t q = Tab::nd_key(h); const int i = t.idx(q); REQUIRES(i < 0);
    
#ifdef VF_SUBST
    const unsigned lim = Tab::N - (Tab::N / 8 + 1);
#else
    const unsigned lim = Tab::N - (Tab::N / 10 + 10);
#endif
    t.bb.num_entries = t.bb.max_num_entries = lim + ND_BELOW(2);
    const bool full = t.bb.num_entries == lim + 1; const unsigned n0 = t.bb.num_entries;
    t.bb.set(q, val(7), true);
    ENSURES(t.bb.num_skipped_entries() == (full ? 1 : 0) && t.bb.get(q).empty() == full && t.bb.num_entries == n0 + !full, "an entry is refused and counted exactly when the table is at its limit");
    t.others(q);
    REACH("end");
}

#include "tree.h"
#include "../src/services/aggregate/AggregationDB.cpp"
// find-or-create in the aggregation hash table, for any three lookups starting from an empty database
extern "C" bool vf_model___cali_variant_value_eq(cali_variant_t a, cali_variant_t b) { return a.value.v_uint == b.value.v_uint; }
union MN { Node n; MN() {} ~MN() {} }; static MN g_n0, g_n1;
template <class T, unsigned N> union Arr { T a[N]; Arr() {} ~Arr() {} };
static Arr<AggregateEntry, 4> g_ent; static Arr<Entry, 6> g_key; static Arr<AggregateKernel, 4> g_ker; static size_t g_map[2];
template <class T> static void vec(std::vector<T>& v, T* a, unsigned n, unsigned cap) { v._M_impl._M_start = a; v._M_impl._M_finish = a + n; v._M_impl._M_end_of_storage = a + cap; }
// growing the vectors, with the reallocation the code must avoid in a signal handler made an obligation
static bool g_alloc;
template <class T> static inline bool room(std::vector<T>* v, size_t n) { const bool ok = (size_t) (v->_M_impl._M_end_of_storage - v->_M_impl._M_finish) >= n; ENSURES(ok || g_alloc, "nothing is allocated in a signal handler"); vf_assume(ok); return ok; }
extern "C" void vf_model___ZNSt6vectorIN9aggregate14AggregateEntryESaIS1_EE9push_backERKS1_(std::vector<AggregateEntry>* v, const AggregateEntry& e) { if (room(v, 1)) *v->_M_impl._M_finish++ = e; }
extern "C" void vf_model___ZNSt6vectorIN4cali5EntryESaIS1_EE9push_backERKS1_(std::vector<Entry>* v, const Entry& e) { if (room(v, 1)) { Entry* p = v->_M_impl._M_finish++; p->m_node = e.m_node; p->m_value = e.m_value; } }
extern "C" void vf_model___ZNSt6vectorIN9aggregate15AggregateKernelESaIS1_EE6resizeEmRKS1_(std::vector<AggregateKernel>* v, size_t n, const AggregateKernel&) { const size_t m = v->_M_impl._M_finish - v->_M_impl._M_start; if (n > m) { room(v, n - m); v->_M_impl._M_finish += n - m; } }
union UD { AggregationDB d; UD() {} ~UD() {} }; static UD g_db;
template <unsigned K> static inline void lookups(bool can_alloc, unsigned len)
{
    new (&g_n0.n) Node(40, 8, Variant()); new (&g_n1.n) Node(41, 8, Variant());
    g_alloc = can_alloc; AggregationDB& d = g_db.d; d.m_max_hash_len = 0; vec(d.m_entries, g_ent.a, 1, 4); vec(d.m_keyents, g_key.a, 1, 6); vec(d.m_kernels, g_ker.a, 0, 4); vec(d.m_hashmap, g_map, 2, 2); g_map[0] = g_map[1] = 0;
    AggregateEntry z; z.count = 0; z.key_idx = 0; z.key_len = 1; z.kernels_idx = 0; z.num_kernels = 0; z.next_entry_idx = 0; g_ent.a[0] = z; g_key.a[0] = Entry(&g_n0.n);
    const uint64_t h0 = ND_U64(), h1 = ND_U64(); AggregateEntry* got[K]; uint64_t id[K];
    for (unsigned k = 0; k < K; ++k) {
        // a key is one or two entries on node 0 or 1; equal keys have equal hashes
        const bool second = ND_BOOL(); const uint64_t v = ND_BELOW(2); id[k] = second * 2 + v;
        Entry key[2]; key[0] = Entry(second ? &g_n1.n : &g_n0.n); key[0].m_value = Variant(CALI_TYPE_UINT, &v, 8); key[1] = Entry(&g_n1.n);
        const size_t n0 = d.m_entries.size();
        AggregateEntry* e = d.find_or_create_entry(SnapshotView(len, key), second ? h1 : h0, 1, can_alloc); got[k] = e;
        bool seen = false; for (unsigned j = 0; j < k; ++j) if (id[j] == id[k] && got[j] != g_ent.a) { seen = true; ENSURES(e == got[j], "a key that is already there is found again"); }
        for (unsigned j = 0; j < k; ++j) if (id[j] != id[k] && got[j] != g_ent.a) ENSURES(e != got[j], "different keys have different entries");
        if (seen) ENSURES(d.m_entries.size() == n0, "a key is only created once");
        if (can_alloc) ENSURES(e != g_ent.a, "a snapshot is only skipped when memory runs out in a signal handler");
        if (e != g_ent.a) {
            ENSURES(e >= g_ent.a && e < g_ent.a + d.m_entries.size() && d.m_entries.size() <= 4 && d.m_keyents.size() <= 6 && d.m_kernels.size() <= 4, "entries lie inside the database");
            ENSURES(e->key_len == len && e->key_idx + len <= d.m_keyents.size() && e->kernels_idx + e->num_kernels <= d.m_kernels.size() && e->num_kernels == 1, "an entry has its own key and results");
            ENSURES(same(g_key.a[e->key_idx], key[0]) && (len < 2 || same(g_key.a[e->key_idx + 1], key[1])), "the entry has the requested key");
            for (unsigned j = 0; j < k; ++j) if (got[j] != e && got[j] != g_ent.a) ENSURES(got[j]->kernels_idx != e->kernels_idx, "entries don't share results");
        }
        ENSURES(g_ent.a[0].count == 0 && g_ent.a[0].key_idx == 0 && g_ent.a[0].key_len == 1, "the entry for skipped snapshots is left alone");
    }
    REACH("end");
}
CONTRACT(lookup_alloc) { lookups<3>(true, 1); }
CONTRACT(lookup_signal) { lookups<3>(false, 1); }
CONTRACT(lookup_signal_two) { lookups<3>(false, 2); }

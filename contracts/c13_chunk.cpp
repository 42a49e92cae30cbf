#include "variant.h"
#include "services/trace/TraceBufferChunk.h"
using namespace cali; using namespace trace;
// a record that fits never leaves the chunk, whatever the encoder's output lengths (C01, C06) and the fill level
#ifndef VF_NATIVE
static unsigned char* g_base; static uint64_t g_cap, g_n;
extern "C" uint64_t vf_model__vlenc_u64(uint64_t v, unsigned char* p) { uint64_t n = 1 + ND_BELOW(10); ENSURES((uint64_t) p - (uint64_t) g_base + n <= g_cap, "the encoded size stays inside the chunk"); ENSURES(v == g_n, "the number of entries is stored"); return n; }
static TraceBufferChunk* g_c; static uint64_t g_p0; static Entry* g_rec;
// loop contract: after i of the n entries the position has advanced by at most 10 + 30 i bytes
extern "C" bool vf_inv_save(const Entry* it)
{
    const uint64_t off = (uint64_t) it - (uint64_t) g_rec, i = off / sizeof(Entry);
    return off == i * sizeof(Entry) && i <= g_n && g_c->m_data == g_base && g_c->m_size == g_cap && g_c->m_pos >= g_p0 && g_c->m_pos <= g_p0 + 10 + Entry::MAX_PACKED_SIZE * i;
}
extern "C" void vf_havoc_save(const Entry*) { g_c->m_pos = ND_U64(); }
extern "C" uint64_t vf_model___ZNK4cali5Entry4packEPh(const Entry* e, unsigned char* p) { uint64_t n = 1 + ND_BELOW(Entry::MAX_PACKED_SIZE); ENSURES((uint64_t) p - (uint64_t) g_base + n <= g_cap, "encoded entries stay inside the chunk"); return n; }
static inline void save(unsigned max)
{
    union U { TraceBufferChunk c; U() {} ~U() {} } u; TraceBufferChunk& c = u.c; static Entry rec[120]; g_c = &c; g_rec = rec;
    g_base = (unsigned char*) malloc(1); c.m_data = g_base; c.m_next = nullptr; c.m_size = g_cap = ND_BELOW(1ull << 40); c.m_pos = ND_BELOW(1ull << 40); REQUIRES(c.m_pos <= g_cap); c.m_nrec = ND_U32();
    const uint64_t p0 = g_p0 = c.m_pos, n0 = c.m_nrec; g_n = ND_BELOW(max); SnapshotView v(g_n, rec);
    const bool fits = c.fits(v);
    ENSURES(fits || p0 + 10 + g_n * Entry::MAX_PACKED_SIZE + 64 >= g_cap, "a record with enough room is accepted");
    if (g_cap == 1) (void) vf_inv_save(rec), vf_havoc_save(rec);   // keep the loop contract
    if (fits) {
        c.save_snapshot(v);
        ENSURES(c.m_size == g_cap && c.m_data == g_base && c.m_pos <= c.m_size && c.m_pos >= p0, "the filled part stays within the chunk");
        ENSURES(c.m_nrec == n0 + (g_n ? 1 : 0), "one more record");
    }
    REACH("end");
}
CONTRACT(save_fits) { save(121); }
CONTRACT(save_fits_few) { save(4); }
#else
CONTRACT(save_fits) { }
#endif

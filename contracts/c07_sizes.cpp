#include "variant.h"
#include "common/NodeBuffer.h"
#include "common/SnapshotBuffer.h"
#include "common/CompressedSnapshotRecord.h"
using namespace cali;
// Capacity: whatever the encoder's output lengths (1..10 bytes each, C01) and the value size, an append never
// writes outside the reserved storage, which grows when needed.
#ifndef VF_NATIVE
static unsigned char g_mem[64]; static unsigned char* g_base; static uint64_t g_cap, g_used;
// storage is only tracked by address arithmetic: positions are offsets from the returned base
extern "C" void* vf_model___Znam(size_t n) { g_base = (unsigned char*) malloc(1); g_cap = n; return g_base; }
extern "C" void vf_model___ZdaPv(void*) { }
extern "C" uint64_t vf_model__vlenc_u64(uint64_t, unsigned char* p) { uint64_t n = 1 + ND_BELOW(10); ENSURES((uint64_t) p - (uint64_t) g_base + n <= g_cap, "encoded ids stay inside the reserved storage"); return n; }
extern "C" void* vf_model__memcpy(void* d, const void*, size_t n) { ENSURES((uint64_t) d - (uint64_t) g_base + n <= g_cap, "copied bytes stay inside the reserved storage"); return d; }
CONTRACT(node_capacity)
{
    NodeBuffer b;
    g_base = (unsigned char*) malloc(1);
    b.m_buffer = g_base; b.m_reserved_len = g_cap = ND_BELOW(1ull << 40); b.m_pos = ND_BELOW(1ull << 40); REQUIRES(b.m_pos <= g_cap);
    b.m_count = ND_U32(); const uint64_t c0 = b.m_count, p0 = b.m_pos;
    cali_variant_t v; v.type_and_size = ND_U64(); v.value.v_uint = ND_U64(); REQUIRES((v.type_and_size >> 32) < (1u << 30));
    NodeBuffer::NodeInfo n = { ND_U64(), ND_U64(), ND_U64(), Variant(v) };
    b.append(n);
    ENSURES(b.m_pos <= b.m_reserved_len && b.m_reserved_len == g_cap && b.m_buffer == g_base, "the filled part stays within the reserved storage");
    ENSURES(b.m_count == c0 + 1 && b.m_pos > p0, "one more node");
    REACH("end");
}
CONTRACT(snapshot_capacity)
{
    SnapshotBuffer b;
    g_base = (unsigned char*) malloc(1);
    b.m_buffer = g_base; b.m_reserved_len = g_cap = ND_BELOW(1ull << 40); b.m_pos = ND_BELOW(1ull << 40); REQUIRES(b.m_pos <= g_cap);
    b.m_count = ND_U32(); const uint64_t c0 = b.m_count, p0 = b.m_pos;
    unsigned char rb[8]; CompressedSnapshotRecord r(0, rb);
    r.m_buffer_len = ND_BELOW(1ull << 30); r.m_imm_pos = ND_BELOW(1ull << 30); r.m_imm_len = ND_BELOW(1ull << 30); REQUIRES(r.m_imm_pos + r.m_imm_len <= r.m_buffer_len);
    b.append(r);
    ENSURES(b.m_pos == p0 + r.size() && b.m_count == c0 + 1, "the record is appended whole");
    ENSURES(b.m_pos <= b.m_reserved_len && b.m_reserved_len == g_cap && b.m_buffer == g_base, "the filled part stays within the reserved storage");
    REACH("end");
}
CONTRACT(import_capacity)
{
    const bool nodes = ND_BOOL(); uint64_t size = ND_BELOW(1ull << 40), count = ND_U32(), pos = ND_BELOW(1ull << 40), cap = ND_BELOW(1ull << 40); REQUIRES(pos <= cap);
    g_base = (unsigned char*) malloc(1); g_cap = cap;
    if (nodes) { NodeBuffer b; b.m_buffer = g_base; b.m_reserved_len = cap; b.m_pos = pos; unsigned char* p = b.import(size, count); ENSURES(p == b.m_buffer && p == g_base && size <= g_cap && b.size() == size && b.count() == count, "import offers storage of the requested size"); }
    else { SnapshotBuffer b; b.m_buffer = g_base; b.m_reserved_len = cap; b.m_pos = pos; unsigned char* p = b.import(size, count); ENSURES(p == b.m_buffer && p == g_base && size <= g_cap && b.size() == size && b.count() == count, "import offers storage of the requested size"); }
    REACH("end");
}
#else
CONTRACT(node_capacity) { } CONTRACT(snapshot_capacity) { } CONTRACT(import_capacity) { }
#endif

#include "variant.h"
#include "common/CompressedSnapshotRecord.h"
#include "caliper/common/Node.h"
#include "caliper/common/CaliperMetadataAccessInterface.h"
using namespace cali;

typedef CompressedSnapshotRecord Rec;
// Size and position bookkeeping for any buffer length and any record state, with the encoder and the byte
// moves replaced by their contracts (C01; c06_memmove): an encoding takes 1..10 (2..20) bytes, a move only
// needs its range to lie inside the buffer.
#ifdef VF_NATIVE
static const uint64_t MAXLEN = 600;
static uint64_t g_enc;
static uint64_t elen(uint64_t v) { unsigned n = 1; while (v > 0x7F) { ++n; v >>= 7; } return n; }
#define COUNT(x) g_enc += (x)
#else
static const uint64_t MAXLEN = 512;
static unsigned char g_buf[MAXLEN]; static uint64_t g_len, g_enc;
#define COUNT(x)
extern "C" uint64_t vf_model__vlenc_u64(uint64_t, unsigned char* p) { uint64_t n = 1 + ND_BELOW(10); p[n - 1] = 0; g_enc += n; return n; }
extern "C" uint64_t vf_model__cali_variant_pack(cali_variant_t, unsigned char* p) { uint64_t n = 2 + ND_BELOW(19); p[n - 1] = 0; g_enc += n; return n; }
static inline void* range(void* d, const void* s, uint64_t n)
{
    if (d >= (void*) g_buf && d < (void*) (g_buf + MAXLEN)) ENSURES((uint64_t) ((unsigned char*) d - g_buf) + n <= g_len, "bytes are only written inside the record's buffer");
    if (s >= (void*) g_buf && s < (void*) (g_buf + MAXLEN)) ENSURES((uint64_t) ((unsigned char*) s - g_buf) + n <= g_len, "bytes are only read inside the record's buffer");
    return d;
}
extern "C" void* vf_model__memcpy(void* d, const void* s, size_t n) { return range(d, s, n); }
extern "C" void* vf_model___ZN12_GLOBAL__N_112save_memmoveEPvS0_m(void* d, void* s, size_t n) { return range(d, s, n); }
#endif
#define STATE \
    uint64_t len = 2 + ND_BELOW(MAXLEN - 2); SETBUF; \
    Rec r(0, buf); r.m_buffer_len = len; g_enc = 0; \
    r.m_num_nodes = ND_BELOW(128); r.m_num_imm = ND_BELOW(128); \
    r.m_imm_pos = 1 + ND_BELOW(len); r.m_imm_len = 1 + ND_BELOW(len); \
    REQUIRES(r.m_imm_pos + r.m_imm_len <= len); \
    r.m_needed_len = ND_U32(); r.m_skipped = ND_U32(); \
    buf[0] = (unsigned char) r.m_num_nodes; buf[r.m_imm_pos] = (unsigned char) r.m_num_imm; \
    const uint64_t nn = r.m_num_nodes, ni = r.m_num_imm, ip = r.m_imm_pos, il = r.m_imm_len, sk = r.m_skipped, nl = r.m_needed_len
#ifdef VF_NATIVE
#define SETBUF unsigned char* buf = (unsigned char*) calloc(len, 1)
#define FREEBUF free(buf)
#else
#define SETBUF unsigned char* const buf = g_buf; g_len = len
#define FREEBUF
#endif
static inline void nodes_step(const unsigned K)
{
    STATE;
    uint64_t id = ND_U64();
    Node node(id, 0, Variant()); const Node* nodes[4] = { &node, &node, &node, &node };
    for (unsigned i = 0; i < K; ++i) COUNT(elen(id));
    size_t s = r.append(K, nodes);
    const bool fits = nn + K < 128 && ip + il + g_enc <= len;
    ENSURES(s == (fits ? 0 : K) && r.num_skipped() == sk + s, "a block of nodes is skipped exactly when it does not fit");
    ENSURES(r.needed_len() == nl + g_enc, "needed length counts the encoded size either way");
    ENSURES(r.num_nodes() == nn + (fits ? K : 0) && r.num_immediates() == ni, "node count");
    ENSURES(r.m_imm_pos == ip + (fits ? g_enc : 0) && r.m_imm_len == il && r.size() == r.m_imm_pos + il && r.size() <= len, "section positions stay inside the buffer");
    ENSURES(buf[0] == r.num_nodes(), "node count header");
    REACH("end");
    FREEBUF;
}
static inline void imm_step(const unsigned K)
{
    STATE;
    cali_id_t id[4]; Variant v[4];
    for (unsigned i = 0; i < K; ++i) { id[i] = ND_U64(); uint64_t x = ND_U64(); v[i] = Variant(CALI_TYPE_UINT, &x, sizeof x); COUNT(elen(id[i]) + elen(CALI_TYPE_UINT) + elen(x)); }
    size_t s = r.append(K, id, v);
    const bool fits = ni + K < 128 && ip + il + g_enc <= len;
    ENSURES(s == (fits ? 0 : K) && r.num_skipped() == sk + s, "a block of entries is skipped exactly when it does not fit");
    ENSURES(r.needed_len() == nl + g_enc, "needed length counts the encoded size either way");
    ENSURES(r.num_nodes() == nn && r.num_immediates() == ni + (fits ? K : 0), "entry count");
    ENSURES(r.m_imm_pos == ip && r.m_imm_len == il + (fits ? g_enc : 0) && r.size() == ip + r.m_imm_len && r.size() <= len, "section positions stay inside the buffer");
    ENSURES(buf[0] == nn && buf[ip] == r.num_immediates(), "entry count headers");
    REACH("end");
    FREEBUF;
}
#define STEP(K) CONTRACT(nodes_step_##K) { nodes_step(K); } CONTRACT(imm_step_##K) { imm_step(K); }
STEP(1) STEP(2) STEP(3) STEP(4)

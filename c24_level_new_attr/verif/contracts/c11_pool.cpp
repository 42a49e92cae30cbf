#include "vf.h"
#include <vector>
#include "../src/caliper/MemoryPool.cpp"
using namespace cali;
// MemoryPoolImpl::allocate for any chunk address, size and fill level, any request
typedef MemoryPool::MemoryPoolImpl Impl;
static union U { Impl i; U() {} ~U() {} } g_u; static Impl::Chunk g_chunks[2]; static unsigned g_exp; static uint64_t g_new;
extern "C" void vf_model___ZN4cali10MemoryPool14MemoryPoolImpl6expandEm(Impl* p, size_t bytes)
{   // contract of expand: a new last chunk with at least the requested size
    ++g_exp; g_chunks[1].ptr = (unsigned char*) g_new; g_chunks[1].wmark = 0; g_chunks[1].size = bytes > 65536 ? bytes : 65536; p->m_chunks._M_impl._M_finish = g_chunks + 2;
}
template <bool ALIGNED> static inline void pool_allocate()
{
    Impl* p = &g_u.i; p->m_chunks._M_impl._M_start = g_chunks; p->m_chunks._M_impl._M_finish = g_chunks + 1; p->m_chunks._M_impl._M_end_of_storage = g_chunks + 2; new (&p->m_lock) util::spinlock;
    const uint64_t base = ND_U64(), size = ND_U64(), w = ND_U64(), lim = 1ull << 40; REQUIRES(base > 0 && base < lim && size < lim && w <= size); g_new = ND_U64(); REQUIRES(g_new > 0 && g_new < lim);
    REQUIRES(base % 16 == 0 && g_new % 16 == 0);   // what operator new[] guarantees
    g_chunks[0].ptr = (unsigned char*) base; g_chunks[0].size = size; g_chunks[0].wmark = w; const uint64_t r0 = p->m_total_used = ND_U64();
    const uint64_t bytes = ND_U64(), sh = ND_BELOW(13), al = ALIGNED ? 1ull << sh : 1; REQUIRES(bytes < lim); const bool grow = ND_BOOL();
    const uint64_t r = (uint64_t) p->allocate(bytes, al, grow);
    ENSURES(g_exp <= 1 && (grow || g_exp == 0), "the pool only grows when allowed");
    if (r == 0) { ENSURES(!grow && w + bytes + al > size && g_chunks[0].wmark == w && p->m_total_used == r0, "a request is only refused when it does not fit, and changes nothing"); return; }
    const uint64_t b = g_exp ? g_new : base, s = g_exp ? g_chunks[1].size : size, from = g_exp ? 0 : w, to = g_exp ? g_chunks[1].wmark : g_chunks[0].wmark;
    ENSURES(r % al == 0, "the block is aligned as requested");
    ENSURES(r >= b + from && r + bytes <= b + to, "the block lies behind all earlier ones, and later ones start behind it");
    ENSURES(to <= s, "the block lies inside its chunk");
    ENSURES(!g_exp || g_chunks[0].wmark == w, "earlier chunks are left alone");
    REACH("end");
}
CONTRACT(pool_allocate_bytes) { pool_allocate<false>(); }
CONTRACT(pool_allocate_aligned) { pool_allocate<true>(); }

#include "vf.h"
#ifdef VF_NATIVE
#include "caliper/MemoryPool.h"
#include <vector>
#include <map>
#include <string.h>
#include <stdlib.h>
using namespace cali;
struct B { unsigned char* p; size_t n; unsigned char v; };
static void use(MemoryPool& m, std::vector<B>& bs, std::map<uintptr_t, size_t>& used, bool can, size_t big)
{
    const unsigned n = ND_BELOW(60);
    for (unsigned k = 0; k < n; ++k) {
        const unsigned c = ND_BELOW(8); const size_t sz = c == 0 ? ND_BELOW(big) : c == 1 ? 65536 - 40 + ND_BELOW(80) : ND_BELOW(2000), al = ND_BOOL() ? 1 : (size_t) 1 << ND_BELOW(10);
        unsigned char* p = (unsigned char*) (al == 1 ? m.allocate(sz) : m.allocate(sz, al));
        if (!p) { ENSURES(!can, "a request is only refused when the pool must not grow"); continue; }
        ENSURES((uintptr_t) p % al == 0, "the block is aligned as requested");
        for (size_t i = 0; i < sz; ++i) ENSURES(p[i] == 0, "blocks are zero-filled");
        auto it = used.upper_bound((uintptr_t) p); if (sz) { ENSURES(it == used.end() || (uintptr_t) p + sz <= it->first, "blocks do not overlap"); if (it != used.begin()) { --it; ENSURES(it->first + it->second <= (uintptr_t) p, "blocks do not overlap"); } used[(uintptr_t) p] = sz; }
        B b { p, sz, (unsigned char) (1 + k % 250) }; memset(p, b.v, sz); bs.push_back(b);
    }
}
static void history(bool can)
{
    setenv("CALI_MEMORY_CAN_EXPAND", can ? "true" : "false", 1); setenv("CALI_MEMORY_POOL_SIZE", "70000", 1);
    std::vector<B> bs; std::map<uintptr_t, size_t> used;
    MemoryPool* a = new MemoryPool; MemoryPool* b = new MemoryPool((size_t) ND_BELOW(100000)); const size_t big = can ? 3000000 : 90000;
    use(*a, bs, used, can, big); use(*b, bs, used, can, big); MemoryPool same(*a); a->merge(same);
    a->merge(*b); delete b; use(*a, bs, used, can, big);
    for (const B& x : bs) for (size_t i = 0; i < x.n; ++i) ENSURES(x.p[i] == x.v, "blocks stay valid and keep their contents, also after merging pools");
    delete a; REACH("end");
}
CONTRACT(history_expand) { history(true); }
CONTRACT(history_fixed) { history(false); }
#else
CONTRACT(history_expand) { REACH("end"); }
CONTRACT(history_fixed) { REACH("end"); }
#endif

#define OWN_ALLOC
#include "c10_fix.h"
static unsigned g_next; static bool g_full;
extern "C" void* vf_model___ZN4cali10MemoryPool8allocateEmm(void*, size_t n, size_t a) { ENSURES(n >= sizeof(Node) * NPB && a >= alignof(Node), "a block is allocated with its full size"); ++g_next; return g_full ? nullptr : g_chunk[g_next].p(); }
static inline void child_lookup(unsigned shape)
{
    T s(3, shape); const int p = (int) ND_BELOW(4) - 1; const unsigned a = ND_BELOW(2), v = ND_BELOW(4); const int want = s.child(p, a, v);
    Node* r = s.t->get_child(s.attr[a], T::vv(v), p < 0 ? nullptr : s.n[p]);
    ENSURES(r != nullptr && s.is(r, s.nd(p), a, v), "the result is a child with the requested attribute and value");
    if (want >= 0) ENSURES(r == s.n[want], "an existing child is found again"); else ENSURES(s.fresh(r, 0), "a new child can be found by its id");
    s.intact(want < 0);
    REACH("end");
}
SHAPE_CONTRACTS(child_lookup)
// placing one node: any fill level of the block, any number of blocks left
CONTRACT(new_node)
{
    T s(3, 6); const unsigned idx = ND_BELOW(NPB); REQUIRES(idx >= 3); g_blocks[0].index = idx; g_blocks[1].chunk = g_chunk[1].p(); g_blocks[1].index = ND_BELOW(NPB); const unsigned i1 = g_blocks[1].index;
    Node* r = s.t->get_child(s.attr[0], T::vv(77), s.n[2]);
    const bool fits = idx + 1 < NPB;
    ENSURES(fits ? r != nullptr && s.t->node(r->id()) == r && g_blocks[0].index == idx + 1 : g_blocks[0].index <= NPB, "a node goes into a free slot of the block, or nowhere");
    ENSURES(g_blocks[1].index == i1, "other blocks are left alone");
    const cali_id_t q = ND_U64(); Node* f = s.t->node(q);
    ENSURES(f == nullptr || (q < g_blocks[0].index && f == g_chunk[0].p() + q), "lookup by id yields a created node of this tree or nothing");
    REACH("end");
}

// creating paths: below any node, in any block state
template <unsigned N> static inline void create_path_n(unsigned room, unsigned blocks, bool full, int p)
{
    T s(room, 6); g_full = full; s.g->num_blocks = blocks; g_next = 0; const unsigned a = 0; const bool fits = N <= room; const unsigned nb = fits ? 0 : (N + NPB - 2) / (NPB - 1);
    Variant d[N]; for (unsigned i = 0; i < N; ++i) d[i] = T::vv(ND_U64());
    Node* r = s.t->get_path(s.attr[a], N, d, p < 0 ? nullptr : s.n[p]);
    const bool ok = fits || (!g_full && nb <= s.g->num_blocks - 1); Node* x = r;
    for (int i = 0; i < 3; ++i) ENSURES(g_blocks[i].index <= NPB, "no node is placed outside its block");
    ENSURES((r != nullptr) == ok, "a path is created if there is room for it");
    if (r) for (int i = (int) N - 1; i >= 0; --i) {
        ENSURES(x->attribute() == 100u + a && x->data() == d[i], "the path holds the values in order");
        ENSURES(s.t->node(x->id()) == x, "every node can be found by its id");
        x = x->parent();
    }
    if (r) ENSURES(x == s.nd(p), "the path starts below the parent");
    REACH("end");
}
CONTRACT(create_path_fits) { create_path_n<2>(2, 1, true, 2); }
CONTRACT(create_path_next_block) { create_path_n<3>(2, 2, false, 2); }
CONTRACT(create_path_no_block) { create_path_n<3>(2, 1, false, 2); }
CONTRACT(create_path_no_memory) { create_path_n<3>(2, 2, true, 2); }
CONTRACT(create_path_long) { create_path_n<9>(3, 3, false, 2); }
CONTRACT(create_path_too_long) { create_path_n<9>(3, 2, false, 2); }

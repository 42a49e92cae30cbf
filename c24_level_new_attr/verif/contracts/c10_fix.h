#pragma once
#include "tree.h"
#include "caliper/MetadataTree.h"
#include "caliper/common/cali_types.h"
using namespace cali; using namespace cali::internal;
// Any small tree: a root, three nodes in an arbitrary shape below it, arbitrary attributes and values; any one operation.
constexpr unsigned NPB = 8;
#ifndef VF_NATIVE
alignas(16) static unsigned char g_mem[64];
extern "C" void* vf_model___ZN4cali10MemoryPool8allocateEm(void*, size_t n) { return n <= 64 ? g_mem : nullptr; }
#ifndef OWN_ALLOC
extern "C" void* vf_model___ZN4cali10MemoryPool8allocateEmm(void*, size_t, size_t) { return nullptr; }
#endif
// contracts of the value layer (C01-C05), restricted to the unsigned values used here
extern "C" bool vf_model___cali_variant_value_eq(cali_variant_t a, cali_variant_t b) { return a.value.v_uint == b.value.v_uint; }
extern "C" cali_variant_t vf_model__cali_make_variant(cali_attr_type t, const void* p, size_t n) { ENSURES(t == CALI_TYPE_UINT && n == 8, "values keep their type and size"); cali_variant_t v; v.type_and_size = CALI_TYPE_UINT; v.value.v_uint = *(const uint64_t*) p; return v; }
extern "C" cali_attr_type vf_model___ZNK4cali9Attribute4typeEv(const Attribute*) { return CALI_TYPE_UINT; }
#endif
union Blk { Node n[NPB]; Blk() {} ~Blk() {} Node* p() { return n; } };
static Blk g_chunk[3]; static MetadataTree::NodeBlock g_blocks[3];
static union GD { MetadataTree::GlobalData g; GD() {} ~GD() {} } g_gd; static union TR { MetadataTree t; TR() {} ~TR() {} } g_tree; static union NB { Node n; NB() {} ~NB() {} } g_attrnode[2], g_typenode, g_n0, g_n1, g_n2;
struct T {
    MetadataTree* t; MetadataTree::GlobalData* g; Node* a[2]; Attribute attr[2]; Node* n[3]; int par[3]; unsigned val[3], at[3]; Node* typ; size_t used;
    // room: free nodes in the current block; a second, empty block may be available or not
    T(unsigned room, unsigned shape) {
        g = &g_gd.g; t = &g_tree.t;
        new ((void*) &g->root) Node(CALI_INV_ID, CALI_INV_ID, Variant()); new ((void*) &g->next_block) std::atomic<unsigned>(1u);
        for (int i = 0; i < 3; ++i) { g_blocks[i].chunk = nullptr; g_blocks[i].index = 0; }
        g->node_blocks = g_blocks; g->num_blocks = 1; g->nodes_per_block = NPB; g_blocks[0].chunk = g_chunk[0].p();
        t->m_nodeblock = g_blocks; t->m_num_nodes = 3; t->m_num_blocks = 1; MetadataTree::mG.store(g);
        typ = new (&g_typenode.n) Node(2, 9, cali_make_variant_from_type(CALI_TYPE_UINT));
        for (int i = 0; i < 2; ++i) { a[i] = new (&g_attrnode[i].n) Node(100 + i, Attribute::NAME_ATTR_ID, Variant()); typ->append(a[i]); attr[i] = Attribute::make_attribute(a[i]); }
        for (unsigned i = 0; i < 3; ++i) {
            par[i] = i == 0 ? -1 : (int) ((shape >> i) & 1) * i - 1;   // each shape bit: below the previous node, or below the root
            at[i] = ND_BELOW(2); val[i] = ND_BELOW(3);
            uint64_t v = val[i]; n[i] = new (i == 0 ? &g_n0.n : i == 1 ? &g_n1.n : &g_n2.n) Node(50 + i, 100 + at[i], Variant(CALI_TYPE_UINT, &v, 8));
            (par[i] < 0 ? &g->root : n[par[i]])->append(n[i]);
            for (unsigned k = 0; k < i; ++k) REQUIRES(par[k] != par[i] || at[k] != at[i] || val[k] != val[i]);   // no two children alike
        }
        used = NPB - 1 - room; g_blocks[0].index = used;
    }
    static Variant vv(uint64_t v) { return Variant(CALI_TYPE_UINT, &v, 8); }
    int child(int p, unsigned a, unsigned v) const { for (int i = 0; i < 3; ++i) if (par[i] == p && at[i] == a && val[i] == v) return i; return -1; }
    Node* nd(int i) const { return i < 0 ? &g->root : n[i]; }
    bool is(Node* x, Node* p, unsigned a, unsigned v) const { return x->parent() == p && x->attribute() == 100u + a && x->data() == vv(v); }
    void intact(size_t made) const {
        ENSURES(g_blocks[0].index == used + made, "exactly the missing nodes are created");
        const unsigned i = ND_BELOW(3); ENSURES(is(n[i], nd(par[i]), at[i], val[i]) && n[i]->id() == 50 + i, "existing nodes stay as they are");
    }
    bool fresh(Node* x, size_t k) const { return x != n[0] && x != n[1] && x != n[2] && t->node(x->id()) == x; }
};
#define SHAPE_CONTRACTS(name) CONTRACT(name##_flat) { name(0); } CONTRACT(name##_mixed) { name(2); } CONTRACT(name##_tail) { name(4); } CONTRACT(name##_deep) { name(6); }

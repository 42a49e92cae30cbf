#pragma once
#include "variant.h"
#include "caliper/common/Node.h"
#include "caliper/common/Attribute.h"
#include "caliper/common/Entry.h"
#include <new>
// context-tree nodes with arbitrary ids and integer values, linked through the tree's own append
struct NodeBox { alignas(cali::Node) unsigned char mem[sizeof(cali::Node)]; cali::Node* p() { return (cali::Node*) mem; } };
static inline cali::Node* mk_node(NodeBox& b, cali_id_t id, cali_id_t attr, const Variant& v, cali::Node* parent = nullptr)
{
    cali::Node* n = new (b.mem) cali::Node(id, attr, v);
    if (parent) parent->append(n);
    return n;
}
static inline Variant nd_uint_value() { uint64_t u = ND_U64(); return Variant(CALI_TYPE_UINT, &u, 8); }
// any entry over the given nodes: empty, a reference, or immediate
static inline bool same(const cali::Entry& a, const cali::Entry& b) { return a.m_node == b.m_node && a.m_value.c_variant().type_and_size == b.m_value.c_variant().type_and_size && a.m_value.c_variant().value.v_uint == b.m_value.c_variant().value.v_uint; }

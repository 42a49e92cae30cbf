// native harness shared by the reader-library contracts: random metadata and records, and their meaning as text
#pragma once
#include "vf.h"
#include "caliper/reader/CaliReader.h"
#include "caliper/reader/CaliWriter.h"
#include "caliper/reader/CaliperMetadataDB.h"
#include "caliper/common/Log.h"
#include "caliper/common/Node.h"
#include "caliper/common/OutputStream.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace cali;
static inline void rd_setup() { static bool done = false; if (!done) { done = true; setenv("CALI_LOG_VERBOSITY", "0", 1); setenv("CALI_LOG_LOGFILE", "log.txt", 1); } }
// any string; special characters are likely
static inline std::string rd_string(unsigned max, bool ctl)
{
    static const char sp[] = ",=\\\n\"' :;#%{}[]()<>./nN0\t\r\x01\x1f\x7f\x80\xc3\xbc\xff"; std::string s; if (max == 0) return s;
    for (unsigned n = ND_BELOW(8) ? ND_BELOW(max) : ND_BELOW(40 * max); n > 0; --n) { unsigned char c = ND_BELOW(3) ? 'a' + ND_BELOW(26) : ND_BOOL() ? (unsigned char) sp[ND_BELOW(sizeof sp - 1)] : ND_U8(); if (c == 0 || (!ctl && c < 0x20 && c != '\n')) c = '_'; s += (char) c; }
    return s;
}
static inline std::string rd_kept(const std::string& s) { std::string r; for (unsigned char c : s) if (c >= 0x20 || c == '\n') r += (char) c; return r; }
static inline std::string rd_str(const Variant& v)
{
    std::string s = std::to_string(v.type()) + ":";
    switch (v.type()) {
    case CALI_TYPE_DOUBLE: { char b[64]; snprintf(b, sizeof b, "%.5g", v.to_double()); return s + b; }
    case CALI_TYPE_STRING: return s + rd_kept(v.to_string());
    case CALI_TYPE_INT: return s + std::to_string(v.to_int64());
    case CALI_TYPE_UINT: return s + std::to_string(v.to_uint());
    default: return s + v.to_string();
    }
}
static inline std::string rd_attr(const CaliperMetadataAccessInterface& db, cali_id_t id, int depth = 0);
static inline std::string rd_path(const CaliperMetadataAccessInterface& db, const Node* n, int depth = 0)
{
    std::string s; for (; n && n->attribute() != CALI_INV_ID && n->id() != CALI_INV_ID; n = n->parent()) s = rd_attr(db, n->attribute(), depth + 1) + "=" + rd_str(n->data()) + "/" + s; return s;
}
static inline std::string rd_attr(const CaliperMetadataAccessInterface& db, cali_id_t id, int depth)
{
    if (depth > 4) return "...";
    Attribute a = db.get_attribute(id); if (!a) return "?";
    if (id < 12) return "b" + std::to_string(id);
    // an attribute is its name, type, properties and metadata
    return "<" + rd_path(db, a.node(), depth) + ">";
}
static inline std::string rd_entry(const CaliperMetadataAccessInterface& db, const Entry& e)
{
    if (e.empty()) return "empty"; if (e.is_reference()) return "R" + rd_path(db, e.node()); return "I" + rd_attr(db, e.attribute()) + "=" + rd_str(e.value());
}
static inline std::string rd_rec(const CaliperMetadataAccessInterface& db, const std::vector<Entry>& r)
{
    std::string a, b; for (auto& e : r) (e.is_immediate() ? b : a) += rd_entry(db, e) + ";"; return a + b;   // references first: their order and the order of immediate entries matter
}
// values whose text form is exact
static inline Variant rd_value(cali_attr_type t, std::string& store, bool ctl)
{
    switch (t) {
    case CALI_TYPE_INT: { int64_t v = ND_BOOL() ? (int64_t) ND_U64() : (int64_t) ND_BELOW(20) - 10; return Variant(CALI_TYPE_INT, &v, 8); }
    case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(ND_BOOL() ? ND_U64() : ND_BELOW(20)));
    case CALI_TYPE_DOUBLE: { static const double d[] = { 0, -0.5, 1e300, -1e-300, 1e10, 0.125, 1e-5, 123456, -7, INFINITY, -INFINITY }; return Variant(ND_BOOL() ? d[ND_BELOW(11)] : ((int64_t) ND_BELOW(2000) - 1000) / 8.0); }
    case CALI_TYPE_BOOL: return Variant((bool) ND_BOOL());
    case CALI_TYPE_ADDR: { uint64_t v = ND_U64(); return Variant(CALI_TYPE_ADDR, &v, 8); }
    case CALI_TYPE_TYPE: return Variant((cali_attr_type) (1 + ND_BELOW(CALI_MAXTYPE)));
    default: store = rd_string(8, ctl); return Variant(CALI_TYPE_STRING, store.data(), store.size());
    }
}
struct RdGen {
    CaliperMetadataDB& db; std::vector<Attribute> attrs, meta; std::vector<Node*> nodes; std::vector<std::string> keep; bool ctl, hier; size_t nkeep = 0;
    std::string& store() { keep.emplace_back(); return keep.back(); }
    RdGen(CaliperMetadataDB& d, unsigned nattr, bool c) : db(d), ctl(c) { keep.reserve(20000);
        static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE, CALI_TYPE_STRING };
        for (unsigned i = 0; i < nattr; ++i) {
            std::string name = ND_BOOL() ? "attr." + std::to_string(ND_BELOW(2 * nattr)) : rd_string(6, false); if (name.empty()) name = "x";
            int prop = (ND_BOOL() ? CALI_ATTR_ASVALUE : 0) | (ND_BOOL() ? CALI_ATTR_NESTED : 0) | (ND_BOOL() ? CALI_ATTR_SKIP_EVENTS : 0) | (ND_BELOW(3) ? 0 : CALI_ATTR_GLOBAL) | (ND_BOOL() ? 0 : CALI_ATTR_AGGREGATABLE) | (ND_BOOL() ? 0 : CALI_ATTR_SCOPE_PROCESS);
            Attribute ma[2]; Variant mv[2]; int nm = 0; while (nm < 2 && !meta.empty() && ND_BOOL()) { ma[nm] = meta[ND_BELOW(meta.size())]; mv[nm] = rd_value(ma[nm].type(), store(), ctl); ++nm; }
            if (db.get_attribute(name)) continue;
            Attribute a = db.create_attribute(name, types[ND_BELOW(8)], prop, nm, ma, mv); attrs.push_back(a); if (!a.store_as_value()) meta.push_back(a);
        } }
    Node* node() { if (!nodes.empty() && ND_BOOL()) return nodes[ND_BELOW(nodes.size())]; if (meta.empty()) return nullptr; Node* p = !nodes.empty() && ND_BELOW(3) ? nodes[ND_BELOW(nodes.size())] : nullptr; Attribute a[3]; Variant v[3]; int n = 1 + ND_BELOW(3); for (int i = 0; i < n; ++i) { a[i] = meta[ND_BELOW(meta.size())]; v[i] = rd_value(a[i].type(), store(), ctl); } Node* r = db.make_tree_entry(n, a, v, p); if (r) nodes.push_back(r); return r; }
    std::vector<Entry> record(unsigned max) { std::vector<Entry> r; for (unsigned n = ND_BELOW(max); n > 0; --n) { if (ND_BOOL()) { Node* q = node(); if (q) r.push_back(Entry(q)); } else if (!attrs.empty()) { Attribute a = attrs[ND_BELOW(attrs.size())]; r.push_back(Entry(a, rd_value(a.type(), store(), ctl))); } } return r; }
};

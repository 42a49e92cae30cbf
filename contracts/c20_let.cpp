// LET operators add exactly the documented entries
#include "vf.h"
#ifdef VF_NATIVE
#include "query.h"
typedef std::vector<Entry> Rec;
// the innermost occurrence of an attribute in a record: the first entry that has one
static Variant value_of(const Rec& r, const Attribute& a)
{
    if (a) for (auto& e : r) { if (e.is_immediate()) { if (e.node()->id() == a.id() && !e.value().empty()) return e.value(); } else for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) if (n->attribute() == a.id()) { if (!n->data().empty()) return n->data(); break; } } return Variant();
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }
static Variant num(cali_attr_type t) { int64_t i = ND_BELOW(8) ? (int64_t) ND_BELOW(2001) - 1000 : (int64_t) (ND_U64() >> (1 + ND_BELOW(60))) - (int64_t) (ND_U64() >> (1 + ND_BELOW(60))); if (ND_BELOW(5) == 0) i = 0; switch (t) { case CALI_TYPE_INT: return Variant(CALI_TYPE_INT, &i, 8); case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(i < 0 ? -(uint64_t) i : i)); default: return Variant(i / 8.0); } }
struct Let { int op; std::string target, cond; std::vector<std::string> args; double scale; std::string scale_s; bool neg; };
CONTRACT(let_operators)
{
    rd_setup(); CaliperMetadataDB db; std::vector<Attribute> attrs; static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE };
    const cali_attr_type one = types[ND_BELOW(3)]; std::vector<std::string> names; const unsigned na = 1 + ND_BELOW(5);
    // operands have one numeric type; nested and plain string attributes form paths
    const unsigned late = ND_BOOL() ? na : na - 1; // the last operand's attribute may be created after the first records
    for (unsigned i = 0; i < na; ++i) { if (i >= late) { names.push_back("v." + std::to_string(i)); continue; } names.push_back("v." + std::to_string(i)); attrs.push_back(db.create_attribute(names[i], one, (ND_BELOW(4) ? CALI_ATTR_ASVALUE : 0) | CALI_ATTR_SKIP_EVENTS)); }
    std::vector<Attribute> reg; for (unsigned i = 0; i < 3; ++i) reg.push_back(db.create_attribute("r." + std::to_string(i), CALI_TYPE_STRING, i < 2 ? CALI_ATTR_NESTED : 0));
    std::vector<Node*> nodes; std::vector<std::string> keep; keep.reserve(200);
    auto node = [&]() { Node* p = nodes.empty() || ND_BELOW(3) == 0 ? nullptr : q_pick(nodes); std::vector<Attribute> c; for (auto& a : attrs) if (!a.store_as_value()) c.push_back(a); for (auto& a : reg) c.push_back(a); Attribute a = q_pick(c); keep.push_back("s" + std::to_string(ND_BELOW(5))); Variant v = a.type() == CALI_TYPE_STRING ? Variant(CALI_TYPE_STRING, keep.back().data(), keep.back().size()) : num(a.type()); nodes.push_back(db.make_tree_entry(1, &a, &v, p)); return nodes.back(); };
    std::vector<Let> lets; std::string q = "let "; 
    for (unsigned i = 0, n = 1 + ND_BELOW(3); i < n; ++i) {
        Let l; l.op = ND_BELOW(6); l.target = "t." + std::to_string(i); l.scale = 1; l.neg = ND_BOOL(); l.scale_s = q_num(); if (l.op == 2) { static const char* t[] = { "1", "-1", "7", "100", "10", "1000000", "-3", "1e30" }; l.scale_s = t[ND_BELOW(8)]; } auto nm = [&]() { if (l.op < 2 && i > 0 && lets[i - 1].op < 5 && ND_BELOW(3) == 0) return lets[i - 1].target; return ND_BELOW(10) ? q_pick(names) : std::string("nosuch"); }; q += (i ? ", " : "") + l.target + "=";
        switch (l.op) {
        case 0: l.args = { nm(), nm() }; q += "ratio(" + l.args[0] + "," + l.args[1]; if (ND_BOOL()) { l.scale = std::stod(l.scale_s); q += "," + l.scale_s; } break;
        case 1: l.args = { nm() }; l.scale = std::stod(l.scale_s); q += "scale(" + l.args[0] + "," + l.scale_s; break;
        case 2: l.args = { nm() }; q += "truncate(" + l.args[0]; if (ND_BOOL()) { l.scale = std::stod(l.scale_s); q += "," + l.scale_s; } break;
        case 3: case 4: q += l.op == 3 ? "first(" : "sum("; for (unsigned k = 0, m = 1 + ND_BELOW(8); k < m; ++k) { l.args.push_back(nm()); q += (k ? "," : "") + l.args.back(); } break;
        default: q += "leaf("; if (ND_BOOL()) { l.args = { ND_BELOW(8) ? q_pick(reg).name() : "nosuch" }; q += l.args[0]; } }
        q += ")"; if (ND_BOOL()) { l.cond = ND_BELOW(3) ? nm() : q_pick(reg).name(); q += std::string(" if ") + (l.neg ? "not " : "") + l.cond; }
        lets.push_back(l);
    }
    CalQLParser p(q.c_str()); ENSURES(!p.error(), "the query is accepted"); Preprocessor pre(p.spec());
    for (unsigned n = 1 + ND_BELOW(6), first = n; n > 0; --n) {
        if (n + 1 == first && late < na) attrs.push_back(db.create_attribute(names[late], one, CALI_ATTR_ASVALUE));
        Rec rec; for (unsigned m = ND_BELOW(6); m > 0; --m) if (ND_BOOL()) rec.push_back(Entry(node())); else if (!attrs.empty()) { Attribute a = q_pick(attrs); if (a.store_as_value()) rec.push_back(Entry(a, num(a.type()))); }
        const Rec out = pre.process(db, rec); Rec cur = rec; size_t k = rec.size(); ENSURES(out.size() >= rec.size(), "entries are only added"); for (size_t i = 0; i < rec.size(); ++i) ENSURES(rd_entry(db, out[i]) == rd_entry(db, rec[i]), "the record's own entries stay as they are");
        for (auto& l : lets) {
            auto v = [&](const std::string& s) { return value_of(cur, db.get_attribute(s)); };
            bool cond = true; if (!l.cond.empty()) { bool any = false; Attribute a = db.get_attribute(l.cond); if (a) for (auto& e : cur) { if (e.is_immediate()) any = any || e.node()->id() == a.id(); else for (const Node* x = e.node(); x && x->id() != CALI_INV_ID; x = x->parent()) any = any || x->attribute() == a.id(); } cond = any != l.neg; }
            Variant w; double d = 0; bool dbl = false;
            if (cond) switch (l.op) {
            case 0: { Variant x = v(l.args[0]), y = v(l.args[1]); if (!x.empty() && !y.empty() && y.to_double() != 0) { dbl = true; d = x.to_double() / y.to_double() * l.scale; w = Variant(d); } break; }
            case 1: { Variant x = v(l.args[0]); if (!x.empty()) { dbl = true; d = x.to_double() * l.scale; w = Variant(d); } break; }
            case 2: { Variant x = v(l.args[0]); if (!x.empty()) { double a = x.to_double(); d = a - std::fmod(a, l.scale); if (x.type() == CALI_TYPE_DOUBLE) { dbl = true; w = Variant(d); } else { const bool neg = x.type() == CALI_TYPE_INT && x.to_int64() < 0; uint64_t u = neg ? -(uint64_t) x.to_int64() : x.to_uint(); if (x.type() == CALI_TYPE_INT && !neg) u = x.to_int64(); if (u < (1ull << 53) || l.scale == 1 || l.scale == -1) u = u < (1ull << 53) ? (uint64_t) std::fabs((double) u - std::fmod((double) u, std::fabs(l.scale)) + 0.0) : u; else { double m = std::fmod((double) u, std::fabs(l.scale)); u = m == (double) u ? 0 : u - (uint64_t) std::ceil(m); }; if (u + 1 == 0) u = 0; int64_t i = neg ? (int64_t) -u : (int64_t) u; w = x.type() == CALI_TYPE_INT ? Variant(CALI_TYPE_INT, &i, 8) : Variant(cali_make_variant_from_uint(u)); } } break; }
            case 3: for (auto& a : l.args) { w = v(a); if (!w.empty()) break; } break;
            case 4: { double s = 0; int64_t is = 0; uint64_t us = 0; bool any = false; for (auto& a : l.args) { Variant x = v(a); if (!x.empty()) { any = true; s += x.to_double(); is = (int64_t) ((uint64_t) is + (uint64_t) x.to_int64()); us += x.to_uint(); } } if (any) { if (one == CALI_TYPE_DOUBLE) { dbl = true; d = s; w = Variant(s); } else if (one == CALI_TYPE_INT) w = Variant(CALI_TYPE_INT, &is, 8); else w = Variant(cali_make_variant_from_uint(us)); } break; }
            default: for (auto& e : cur) { if (e.is_immediate()) continue; for (const Node* x = e.node(); x && x->id() != CALI_INV_ID && w.empty(); x = x->parent()) if (l.args.empty() ? db.get_attribute(x->attribute()).is_nested() : db.get_attribute(x->attribute()).name() == l.args[0]) w = x->data(); if (!w.empty()) break; } }
            if (w.empty()) continue;
            ENSURES(k < out.size(), "a result is added if all operands are there and the condition is met"); const Entry& e = out[k++]; Attribute ta = db.get_attribute(e.attribute());
            ENSURES(e.is_immediate() && ta.name() == l.target, "the result is stored under the target name"); ENSURES(ta.type() == w.type() && ta.store_as_value() && !ta.is_nested(), "the target attribute has the result's type");
            if (dbl) ENSURES(e.value().type() == CALI_TYPE_DOUBLE && near(e.value().to_double(), d), "the result is the documented function of the operands"); else { ENSURES(e.value() == w, "the result is the documented function of the operands exactly"); }
            cur.push_back(e);
        }
        ENSURES(k == out.size(), "nothing is added if an operand is missing or the condition is not met");
    }
    REACH("end");
}
#else
CONTRACT(let_operators) { REACH("end"); }
#endif

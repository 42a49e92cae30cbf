// WHERE conditions select exactly the records that meet all of them
#include "vf.h"
#ifdef VF_NATIVE
#include "query.h"
// every occurrence of an attribute in a record: (attribute id, value)
static std::vector<std::pair<cali_id_t, Variant>> occurrences(const std::vector<Entry>& rec)
{
    std::vector<std::pair<cali_id_t, Variant>> r; for (auto& e : rec) if (e.is_immediate()) r.push_back({ e.node()->id(), e.value() }); else for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) r.push_back({ n->attribute(), n->data() }); return r;
}
enum Op { EXIST, EQ, LT, GT };
struct Cond { bool neg; Op op; std::string name, text; };
static int cmp(cali_attr_type t, const Variant& a, const Variant& b)
{
    switch (t) { case CALI_TYPE_INT: return a.to_int64() < b.to_int64() ? -1 : a.to_int64() > b.to_int64(); case CALI_TYPE_DOUBLE: return a.to_double() < b.to_double() ? -1 : a.to_double() > b.to_double(); case CALI_TYPE_STRING: return a == b ? 0 : a < b ? -1 : 1; default: return a.to_uint() < b.to_uint() ? -1 : a.to_uint() > b.to_uint(); }
}
static bool holds(const CaliperMetadataAccessInterface& db, const Cond& c, const std::vector<Entry>& rec)
{
    Attribute a = db.get_attribute(c.name); bool any = false;
    if (a) for (auto& o : occurrences(rec)) if (o.first == a.id()) {
        if (c.op == EXIST) { any = true; continue; }
        Variant v = Variant::from_string(a.type(), c.text.c_str()); int k = cmp(a.type(), o.second, v);
        // "not a < v" asks for an a with a value of at least v; "not a = v" is met without any a
        any = any || (c.op == EQ ? k == 0 : c.op == LT ? (c.neg ? k >= 0 : k < 0) : (c.neg ? k <= 0 : k > 0));
    }
    return c.op == LT || c.op == GT ? any : any != c.neg;
}
static std::string text(const Cond& c) { static const char* o[] = { "", "=", "<", ">" }; std::string s = c.neg ? (ND_BOOL() ? "NOT " : "not ") : ""; s += q_quote(c.name); if (c.op != EXIST) s += std::string(ND_BOOL() ? " " : "") + o[c.op] + (ND_BOOL() ? " " : "") + q_quote(c.text); return s; }
static bool plain(const std::string& s) { for (unsigned char c : s) if (c < 0x20 || c == 0xff) return false; return !s.empty(); }
static Cond pick(RdGen& g, const std::vector<std::vector<Entry>>& recs)
{
    Cond c; c.neg = ND_BOOL(); c.op = (Op) ND_BELOW(4); c.name = "nosuch"; c.text = "1"; if (ND_BELOW(10) == 0) { c.name = "late"; return c; } if (g.attrs.empty() || ND_BELOW(10) == 0) return c;
    Attribute a = g.attrs[ND_BELOW(g.attrs.size())]; std::string st; Variant v = rd_value(a.type(), st, false);
    if (!recs.empty() && ND_BELOW(3)) { auto o = occurrences(recs[ND_BELOW(recs.size())]); if (!o.empty()) { auto& x = o[ND_BELOW(o.size())]; if (g.db.get_attribute(x.first)) { a = g.db.get_attribute(x.first); v = x.second; } } }
    c.name = a.name(); c.text = v.to_string(); if (c.text.compare(0, 3, "-0.") == 0 && c.text.find_first_not_of("-0.") == std::string::npos) c.text = "0"; if (!plain(c.name) || c.name == "not" || c.name == "NOT") c.name = "nosuch"; if (!plain(c.text) || Variant::from_string(a.type(), c.text.c_str()).empty()) c.op = EXIST; return c;
}
CONTRACT(filter_records)
{
    rd_setup(); CaliperMetadataDB db; RdGen g(db, 1 + ND_BELOW(6), false); std::vector<std::vector<Entry>> recs; for (unsigned n = ND_BELOW(12); n > 0; --n) { recs.push_back(g.record(6)); }
    std::vector<Cond> cs; for (unsigned n = 1 + ND_BELOW(ND_BOOL() ? 1 : 3); n > 0; --n) cs.push_back(pick(g, recs));
    std::string q = ND_BOOL() ? "WHERE " : "select * where "; for (size_t i = 0; i < cs.size(); ++i) q += (i ? (ND_BOOL() ? "," : " , ") : "") + text(cs[i]);
    CalQLParser p((q + " format cali").c_str()); ENSURES(!p.error(), "the query is accepted");
    RecordSelector sel(p.spec()); std::vector<std::string> want; std::ostringstream os; { OutputStream s; s.set_stream(&os); QueryProcessor qp(p.spec(), s);
    // an attribute may be created after the query started
    Attribute late; size_t when = ND_BELOW(8), k = 0;
    for (auto& r : recs) {
        if (k++ == when) late = db.create_attribute("late", CALI_TYPE_INT, ND_BOOL() ? CALI_ATTR_ASVALUE : 0); if (late && ND_BOOL()) { const int64_t i = ND_BELOW(3); Variant lv(CALI_TYPE_INT, &i, 8); if (late.store_as_value()) r.push_back(Entry(late, lv)); else r.push_back(Entry(db.make_tree_entry(1, &late, &lv))); }
        bool w = true; for (auto& c : cs) w = w && holds(db, c, r); const std::string before = rd_rec(db, r);
        ENSURES(sel.pass(db, r) == w, "a record passes exactly if it meets all conditions");
        for (auto& c : cs) { QuerySpec::Condition qc; static const QuerySpec::Condition::Op ops[2][4] = { { QuerySpec::Condition::Exist, QuerySpec::Condition::Equal, QuerySpec::Condition::LessThan, QuerySpec::Condition::GreaterThan }, { QuerySpec::Condition::NotExist, QuerySpec::Condition::NotEqual, QuerySpec::Condition::GreaterOrEqual, QuerySpec::Condition::LessOrEqual } }; qc.op = ops[c.neg][c.op]; qc.attr_name = c.name; qc.value = c.op == EXIST ? "" : c.text; RecordSelector one(qc); ENSURES(one.pass(db, r) == holds(db, c, r), "a single condition selects the records that meet it"); size_t got = 0; one(db, r, [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& x) { ++got; ENSURES(rd_rec(db, x) == before, "records are passed on unchanged"); }); ENSURES(got == (size_t) holds(db, c, r), "a selected record is passed on once"); }
        qp.process_record(db, r); if (w && !r.empty()) want.push_back(before);
    }
    qp.flush(db); }
    CaliperMetadataDB b; CaliReader rd; std::istringstream is(os.str()); std::vector<std::string> got; rd.read(is, b, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) { got.push_back(rd_rec(d, rec)); });
    ENSURES(got == want, "a filtering query puts out the selected records, unchanged and in order"); REACH("end");
}
#else
CONTRACT(filter_records) { REACH("end"); }
#endif

// .cali text: what CaliWriter writes, CaliReader reads back as the same records
#include "vf.h"
#ifdef VF_NATIVE
#include "reader.h"
struct Read { std::vector<std::string> recs; bool err; std::string msg; };
static Read read_all(const std::string& text, CaliperMetadataDB& db, unsigned* nnodes = nullptr)
{
    Read r; std::istringstream is(text); CaliReader rd; std::set<const Node*> seen; unsigned nn = 0;
    rd.read(is, db, [&](CaliperMetadataAccessInterface&, const Node* n) { ENSURES(n != nullptr, "the node function gets a node"); ++nn; }, [&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) { ENSURES(&d == &db, "records are passed with the database"); r.recs.push_back(rd_rec(d, rec)); });
    r.err = rd.error(); r.msg = rd.error_msg(); if (nnodes) *nnodes = nn; return r;
}
static std::multiset<std::string> globals(CaliperMetadataDB& db) { std::multiset<std::string> r; for (auto& e : db.get_globals()) r.insert(rd_entry(db, e)); return r; }
static std::string write_all(RdGen& g, unsigned nrec, std::vector<std::string>& want, bool gl, const std::vector<std::vector<Entry>>* given = nullptr)
{
    std::ostringstream os; size_t lines; { OutputStream s; s.set_stream(&os); CaliWriter w(s);
    for (unsigned i = 0; i < nrec; ++i) { auto r = given ? (*given)[i] : g.record(8); if (r.empty()) continue; w.write_snapshot(g.db, r); want.push_back(rd_rec(g.db, r)); }
    if (gl) { auto q = g.db.get_globals(); if (!q.empty()) w.write_globals(g.db, q); } lines = w.num_written(); }
    std::string t = os.str(); size_t nl = 0; for (char c : t) nl += c == '\n'; ENSURES(nl == lines && (t.empty() || t.back() == '\n'), "one line per record written"); return t;
}
static void add_globals(RdGen& g) { for (unsigned n = ND_BELOW(6); n > 0; --n) if (!g.attrs.empty()) { Attribute a = g.attrs[ND_BELOW(g.attrs.size())]; g.db.set_global(a, rd_value(a.type(), g.store(), g.ctl)); } }
static void history(unsigned nattr, unsigned nrec, bool ctl)
{
    rd_setup(); CaliperMetadataDB db; RdGen g(db, 1 + ND_BELOW(nattr), ctl); for (unsigned n = ND_BELOW(30); n > 0; --n) g.node(); add_globals(g);
    std::vector<std::string> want; const bool gl = ND_BOOL(); const std::string text = write_all(g, ND_BELOW(nrec), want, gl);
    CaliperMetadataDB in; unsigned nn = 0; Read r = read_all(text, in, &nn);
    ENSURES(!r.err, "a written stream is read without an error"); ENSURES(r.recs == want, "the records read are those written, in order");
    if (gl && !ctl) ENSURES(globals(in) == globals(db), "the globals read are those written");
    // same paths are the same node: reading again adds nothing new, and the node count stays
    if (ND_BOOL()) { std::vector<std::string> a, b; auto dump = [&](std::vector<std::string>& o) { for (cali_id_t i = 12; in.node(i); ++i) o.push_back(rd_path(in, in.node(i))); }; dump(a); Read r2 = read_all(text, in); dump(b); ENSURES(!r2.err && r2.recs == want, "reading again gives the records again"); ENSURES(a == b, "equal paths read again are the same nodes"); std::set<std::string> u(a.begin(), a.end()); ENSURES(u.size() == a.size(), "a path is stored once"); }
    // the database read can be written and read again
    { CaliperMetadataDB o; std::vector<std::vector<Entry>> recs; std::istringstream is(text); CaliReader rd; CaliperMetadataDB mid; std::ostringstream os; { OutputStream s; s.set_stream(&os); CaliWriter w(s); rd.read(is, mid, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) { w.write_snapshot(d, rec); }); } Read r3 = read_all(os.str(), o); ENSURES(!r3.err && r3.recs == want, "records copied through a second stream are the same"); }
    // merging into another database by reference
    { CaliperMetadataDB o; RdGen h(o, ND_BELOW(5), false); size_t i = 0; std::istringstream is(text); CaliReader rd; CaliperMetadataDB mid; rd.read(is, mid, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) { auto m = o.merge_snapshot(mid, rec); ENSURES(i < want.size() && (rd_rec(o, m) == want[i] || nattr == 0), "a record merged from another database is the same"); ++i; }); }
    REACH("end");
}
CONTRACT(roundtrip_small) { history(4, 4, true); }
CONTRACT(roundtrip_many) { history(12, 60, true); }
CONTRACT(roundtrip_globals) { history(8, 6, false); }
// several streams with their own node ids read into one database
CONTRACT(merge_streams)
{
    rd_setup(); CaliperMetadataDB in; std::vector<std::string> want; std::string all; bool same = true; std::vector<std::string> got; const unsigned n = 2 + ND_BELOW(3);
    std::set<std::string> grefs; std::map<std::string, std::string> gvals;
    for (unsigned k = 0; k < n; ++k) {
        CaliperMetadataDB db; std::vector<std::string> w; 
        // attributes of one name but different type or properties in different streams stay apart
        RdGen g(db, 1 + ND_BELOW(5), false); for (unsigned m = ND_BELOW(20); m > 0; --m) g.node();
        std::string t = write_all(g, ND_BELOW(10), w, false);
        // globals: references are collected, a value replaces the attribute's previous value
        std::vector<Entry> gl; for (unsigned m = ND_BELOW(5); m > 0; --m) { if (ND_BOOL()) { Node* q = g.node(); if (q) gl.push_back(Entry(q)); } else if (!g.attrs.empty()) { Attribute a = g.attrs[ND_BELOW(g.attrs.size())]; if (a.is_global() && a.store_as_value()) gl.push_back(Entry(a, rd_value(a.type(), g.store(), false))); } }
        if (!gl.empty()) { std::ostringstream os; { OutputStream s; s.set_stream(&os); CaliWriter wr(s); wr.write_globals(db, gl); } std::string x = os.str(); t += x; for (auto& e : gl) { if (e.is_reference()) grefs.insert(rd_entry(db, e)); } for (auto& e : gl) if (!e.is_reference()) gvals[rd_attr(db, e.attribute())] = rd_entry(db, e); }
        Read r = read_all(t, in); ENSURES(!r.err, "every stream is read without an error"); ENSURES(r.recs == w, "each stream's records keep their meaning next to other streams' nodes");
    }
    std::multiset<std::string> wantg(grefs.begin(), grefs.end()); for (auto& v : gvals) wantg.insert(v.second); ENSURES(globals(in) == wantg, "globals of all streams are collected, the last value of an attribute counts");
    std::set<std::string> u; size_t c = 0; for (cali_id_t i = 12; in.node(i); ++i, ++c) u.insert(rd_path(in, in.node(i))); ENSURES(u.size() == c, "equal paths of different streams are one node");
    REACH("end");
}
// double values keep at least five significant digits, whatever their size
CONTRACT(double_values)
{
    rd_setup(); CaliperMetadataDB db, in; Attribute a = db.create_attribute("d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE, 0, nullptr, nullptr); uint64_t u = ND_U64(); double d; memcpy(&d, &u, 8); REQUIRES(std::isfinite(d)); if (ND_BOOL()) d = (double) ND_U64() / 1e9;
    std::ostringstream os; { OutputStream s; s.set_stream(&os); CaliWriter w(s); w.write_snapshot(db, { Entry(a, Variant(d)) }); } std::istringstream is(os.str()); CaliReader rd; unsigned n = 0;
    rd.read(is, in, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) { ++n; ENSURES(rec.size() == 1 && rec[0].value().type() == CALI_TYPE_DOUBLE, "a double is read"); const double x = rec[0].value().to_double(); ENSURES(x == d || std::fabs(x - d) <= 1e-5 * std::fabs(d) + 1e-320, "the value is close to the one written"); });
    ENSURES(n == 1 && !rd.error(), "one record is read"); REACH("end");
}
#else
CONTRACT(roundtrip_small) { REACH("end"); } CONTRACT(roundtrip_many) { REACH("end"); } CONTRACT(roundtrip_globals) { REACH("end"); } CONTRACT(merge_streams) { REACH("end"); } CONTRACT(double_values) { REACH("end"); }
#endif

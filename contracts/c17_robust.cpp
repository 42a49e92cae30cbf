// any bytes read as .cali text, and any query run on them: no crash; malformed lines are reported and leave the others as they are
#include "vf.h"
#ifdef VF_NATIVE
#include "query.h"
#include "common/SnapshotTextFormatter.h"
static std::string make_text(RdGen& g, unsigned nrec, std::vector<std::string>& lines)
{
    std::ostringstream os; { OutputStream s; s.set_stream(&os); CaliWriter w(s); for (unsigned i = 0; i < nrec; ++i) { auto r = g.record(8); if (!r.empty()) w.write_snapshot(g.db, r); } auto q = g.db.get_globals(); if (!q.empty()) w.write_globals(g.db, q); }
    std::istringstream is(os.str()); for (std::string l; std::getline(is, l);) lines.push_back(l); return os.str();
}
static void set_globals(RdGen& g) { for (unsigned n = ND_BELOW(4); n > 0; --n) if (!g.attrs.empty()) { Attribute a = g.attrs[ND_BELOW(g.attrs.size())]; g.db.set_global(a, rd_value(a.type(), g.store(), g.ctl)); } }
struct Out { std::vector<std::string> recs; bool err; };
static Out read_lines(const std::vector<std::string>& lines, CaliperMetadataDB& db)
{
    Out r; std::string t; for (auto& l : lines) t += l + "\n"; if (!t.empty() && ND_BOOL()) t.pop_back(); std::istringstream is(t); CaliReader rd;
    rd.read(is, db, [](CaliperMetadataAccessInterface&, const Node* n) { ENSURES(n, "a node is passed"); }, [&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) { for (auto& e : rec) ENSURES(!e.empty(), "records passed on have no empty entries"); r.recs.push_back(rd_rec(d, rec)); });
    r.err = rd.error(); if (r.err) ENSURES(!rd.error_msg().empty(), "an error comes with a message"); return r;
}
static std::string bad_line(bool& is_ctx)
{
    // ids far outside any stream's nodes
    static const char* k[] = { "garbage", "__rec=", "__rec=nodes,id=900,attr=8,data=x", "__rec=node,attr=8,data=x", "__rec=node,id=900,data=x", "__rec=node,id=900,attr=70000,data=x", "__rec=node,id=900,attr=8,parent=70000,data=x", "__rec=node,id=900,attr=9,data=notatype", "__rec=node,id=900,attr=10,data=abc", "__rec=globals,attr=8=8,data=x", "__rec=Ctx,ref=1", "=,=,=", "\\", "__rec=node,", "__rec=node,bogus=1", "__rec=globals,attr=8,data=a=b", "id=1,attr=8", "__rec=node,id=900,attr=70000,data=x,parent=3", "__rec=node,id=900,attr=18446744073709551615,data=x" };
    static const char* c[] = { "__rec=ctx,attr=8=8,data=x", "__rec=ctx,attr=8,data=x=y", "__rec=ctx,data=x", "__rec=ctx,attr=8", "__rec=ctx,ref=70000", "__rec=ctx,attr=70000,data=x", "__rec=ctx,attr=70000,data=x,ref=70000=70001" };
    is_ctx = ND_BELOW(4) == 0; return is_ctx ? c[ND_BELOW(7)] : k[ND_BELOW(19)];
}
CONTRACT(malformed_lines)
{
    rd_setup(); CaliperMetadataDB db, a, b; RdGen g(db, 1 + ND_BELOW(6), true); set_globals(g); std::vector<std::string> lines; make_text(g, ND_BELOW(12), lines);
    Out good = read_lines(lines, a); ENSURES(!good.err, "well-formed lines are read without an error");
    std::vector<std::string> mixed = lines; unsigned nbad = ND_BELOW(4), nctx = 0;
    for (unsigned i = 0; i < nbad; ++i) { bool ctx; std::string l = bad_line(ctx); nctx += ctx; mixed.insert(mixed.begin() + ND_BELOW(mixed.size() + 1), l); } for (unsigned i = ND_BELOW(3); i > 0; --i) mixed.insert(mixed.begin() + ND_BELOW(mixed.size() + 1), "");
    Out o = read_lines(mixed, b); ENSURES(o.err == (nbad > 0), "malformed lines are reported, empty lines are not");
    // the well-formed records are all there, in order, with their meaning
    size_t j = 0; for (auto& r : o.recs) if (j < good.recs.size() && r == good.recs[j]) ++j; ENSURES(j == good.recs.size(), "well-formed records are read as without the malformed lines"); ENSURES(o.recs.size() <= good.recs.size() + nctx, "only context records are passed on");
    REACH("end");
}
static void mutate(std::string& t)
{
    static const char* tok[] = { "attr=", "data=", "ref=", "parent=", "id=", ",", "=", "\\", "\n", "__rec=node,", "__rec=ctx,", "__rec=globals,", "0", "8", "9", "10", "11", "12", "13", "70000", "18446744073709551615", "int", "double", "string", "inv", "usr", "ptr", "type", "-1", "276", "21" };
    for (unsigned n = 1 + ND_BELOW(8); n > 0; --n) { if (t.empty()) { t = "__rec=ctx,ref="; continue; } size_t p = ND_BELOW(t.size()); switch (ND_BELOW(5)) { case 0: t.erase(p, 1 + ND_BELOW(ND_BOOL() ? 3 : 40)); break; case 1: t.insert(p, tok[ND_BELOW(31)]); break; case 2: t[p] = (char) ND_U8(); break; case 3: { size_t q = ND_BELOW(t.size()); t.insert(p, t.substr(q, 1 + ND_BELOW(80))); break; } default: { size_t d = t.find_first_of("0123456789", p); if (d != std::string::npos) { size_t e = t.find_first_not_of("0123456789", d); t.replace(d, (e == std::string::npos ? t.size() : e) - d, ND_BOOL() ? std::to_string(ND_BELOW(60)) : tok[12 + ND_BELOW(9)]); } } } }
}
static void run_query(const std::string& q, const std::string& text)
{
    CalQLParser p(q.c_str()); if (p.error()) { ENSURES(!p.error_msg().empty(), "a query error has a message"); return; }
    QuerySpec spec = p.spec(); std::ostringstream qs; qs << spec; CaliperMetadataDB db; if (ND_BOOL()) { db.add_attribute_aliases(spec.aliases); db.add_attribute_units(spec.units); }
    std::ostringstream os; { OutputStream s; s.set_stream(&os); QueryProcessor qp(spec, s); std::istringstream is(text); CaliReader rd; rd.read(is, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) { qp.process_record(d, rec); }); qp.flush(db); }
}
static std::vector<std::string> names_of(RdGen& g) { std::vector<std::string> n; for (auto& a : g.attrs) n.push_back(a.name()); n.push_back("cali.attribute.name"); n.push_back("cali.attribute.prop"); return n; }
CONTRACT(any_text)
{
    rd_setup(); CaliperMetadataDB db; RdGen g(db, 1 + ND_BELOW(6), true); set_globals(g); std::vector<std::string> lines; std::string t = make_text(g, ND_BELOW(12), lines); mutate(t); if (ND_BELOW(10) == 0) t = rd_string(60, true);
    run_query(q_query(names_of(g), false), t); REACH("end");
}
CONTRACT(any_query)
{
    rd_setup(); CaliperMetadataDB db; RdGen g(db, 1 + ND_BELOW(6), true); set_globals(g); std::vector<std::string> lines; std::string t = make_text(g, ND_BELOW(8), lines); if (ND_BELOW(4) == 0) mutate(t);
    std::string q = q_query(names_of(g), true);
    if (ND_BOOL()) for (unsigned n = 1 + ND_BELOW(4); n > 0 && !q.empty(); --n) { size_t p = ND_BELOW(q.size()); switch (ND_BELOW(4)) { case 0: q.erase(p, 1 + ND_BELOW(6)); break; case 1: { static const char* tok[] = { ",", "(", ")", "=", "\"", "\\", " ", "*", ";", "as", "unit", "by", "group", "path", "<", ">" }; q.insert(p, tok[ND_BELOW(16)]); break; } case 2: { char c = (char) ND_U8(); q[p] = c ? c : ' '; break; } default: q.insert(p, q.substr(ND_BELOW(q.size()), 1 + ND_BELOW(20))); } }
    run_query(q, t); REACH("end");
}
// any format string of the text formatters
CONTRACT(any_format)
{
    rd_setup(); CaliperMetadataDB db; RdGen g(db, 1 + ND_BELOW(5), true); auto names = names_of(g); std::string f; for (unsigned n = ND_BELOW(12); n > 0; --n) { static const char* t[] = { "%", "%", "[", "]", "10", "-3", "99999999999", "x", "% ", "5r", "\n" }; f += ND_BELOW(3) ? t[ND_BELOW(11)] : q_name(names); }
    SnapshotTextFormatter fmt(f); std::ostringstream os; for (unsigned n = 1 + ND_BELOW(4); n > 0; --n) fmt.print(os, db, g.record(6));
    std::istringstream none(""); QuerySpec spec; spec = CalQLParser("format format(x)").spec(); spec.format.kwargs["format"] = f; std::ostringstream us; { OutputStream s; s.set_stream(&us); QueryProcessor qp(spec, s); for (unsigned n = 1 + ND_BELOW(4); n > 0; --n) qp.process_record(db, g.record(6)); qp.flush(db); }
    REACH("end");
}
#else
CONTRACT(any_format) { REACH("end"); } CONTRACT(malformed_lines) { REACH("end"); } CONTRACT(any_text) { REACH("end"); } CONTRACT(any_query) { REACH("end"); }
#endif

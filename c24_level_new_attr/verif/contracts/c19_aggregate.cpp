// aggregation: one output record per distinct key, with the documented function of the input records' values
#include "vf.h"
#ifdef VF_NATIVE
#include "query.h"
#include <algorithm>
typedef std::vector<Entry> Rec;
// numbers of .cali text have six digits
static double g_tol;
static bool near(double a, double b, double s) { return a == b || std::fabs(a - b) <= g_tol * std::max(s, std::max(std::fabs(a), std::fabs(b))); }
struct Gen {
    CaliperMetadataDB& db; std::vector<Attribute> vals, path, plain, imm; std::vector<Node*> nodes; std::vector<std::string> keep; cali_attr_type t[3];
    Gen(CaliperMetadataDB& d) : db(d) {
        keep.reserve(4000); static const cali_attr_type ty[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE };
        for (unsigned i = 0; i < 3; ++i) { t[i] = ty[ND_BELOW(3)]; vals.push_back(db.create_attribute("v" + std::to_string(i), t[i], CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | (ND_BOOL() ? CALI_ATTR_AGGREGATABLE : 0))); }
        for (unsigned i = 0; i < 2; ++i) path.push_back(db.create_attribute("p" + std::to_string(i), CALI_TYPE_STRING, CALI_ATTR_NESTED));
        for (unsigned i = 0; i < 2; ++i) plain.push_back(db.create_attribute("q" + std::to_string(i), i ? CALI_TYPE_INT : CALI_TYPE_STRING, 0));
        static const cali_attr_type it[] = { CALI_TYPE_INT, CALI_TYPE_STRING, CALI_TYPE_DOUBLE, CALI_TYPE_UINT }; for (unsigned i = 0; i < 2; ++i) imm.push_back(db.create_attribute("k" + std::to_string(i), it[ND_BELOW(4)], CALI_ATTR_ASVALUE));
        for (unsigned n = 1 + ND_BELOW(9); n > 0; --n) { Attribute a = ND_BELOW(3) ? q_pick(path) : q_pick(plain); Variant v = small(a.type()); nodes.push_back(db.make_tree_entry(1, &a, &v, nodes.empty() || ND_BELOW(4) == 0 ? nullptr : q_pick(nodes))); }
    }
    Variant small(cali_attr_type ty) { const int64_t i = (int64_t) ND_BELOW(4) - (ty == CALI_TYPE_UINT ? 0 : 1); switch (ty) { case CALI_TYPE_STRING: keep.push_back(std::string("s") + char('a' + ND_BELOW(4))); return Variant(CALI_TYPE_STRING, keep.back().data(), 2); case CALI_TYPE_INT: return Variant(CALI_TYPE_INT, &i, 8); case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(i)); default: return Variant(i / 4.0); } }
    Variant num(cali_attr_type ty) { int64_t i = (int64_t) ND_BELOW(ND_BELOW(4) ? 200 : 4000000000u) - 90; if (ty == CALI_TYPE_UINT && i < 0) i = -i; if (ND_BELOW(6) == 0) i = 0; switch (ty) { case CALI_TYPE_INT: return Variant(CALI_TYPE_INT, &i, 8); case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(i)); default: return Variant(i / 8.0); } }
    Rec record()
    {
        Rec r; if (ND_BELOW(5)) r.push_back(Entry(q_pick(nodes))); if (ND_BELOW(4) == 0) r.push_back(Entry(q_pick(nodes)));
        for (auto& a : imm) if (ND_BOOL()) r.push_back(Entry(a, small(a.type()))); for (unsigned i = 0; i < 3; ++i) for (unsigned n = ND_BELOW(8); n > 5 || (n == 1); n -= (n == 1 ? 1 : 6)) r.push_back(Entry(vals[i], num(t[i])));
        for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[ND_BELOW(i)]); return r;
    }
};
// key of a record: immediate key values, the plain key values and the path, each in the record's order, outermost first
struct Key { std::vector<std::string> imm, plain, path; bool operator<(const Key& o) const { return std::tie(imm, plain, path) < std::tie(o.imm, o.plain, o.path); } bool operator==(const Key& o) const { return imm == o.imm && plain == o.plain && path == o.path; } };
struct KeySpec { bool all, use_path; std::set<std::string> names; };
static Key key_of(const CaliperMetadataDB& db, const Rec& r, const KeySpec& ks)
{
    Key k; for (auto& e : r) { if (e.is_immediate()) { Attribute a = db.get_attribute(e.node()->id()); if (ks.names.count(a.name())) k.imm.push_back(a.name() + "=" + rd_str(e.value())); } else for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) { Attribute a = db.get_attribute(n->attribute()); if (ks.all || (ks.use_path && a.is_nested()) || ks.names.count(a.name())) (a.is_nested() ? k.path : k.plain).push_back(a.name() + "=" + rd_str(n->data())); } }
    std::sort(k.imm.begin(), k.imm.end()); std::reverse(k.plain.begin(), k.plain.end()); std::reverse(k.path.begin(), k.path.end()); return k;
}
struct Stat { unsigned n = 0; double sum = 0, sq = 0, mn = 0, mx = 0, mag = 0; int64_t is = 0; std::vector<double> seen; void add(double d, int64_t i) { mn = n ? std::min(mn, d) : d; mx = n ? std::max(mx, d) : d; ++n; sum += d; sq += d * d; mag += std::fabs(d); is += i; seen.push_back(d); } };
struct Group { unsigned count = 0; Stat ex[3], in[3]; };
struct Agg { int op; int a, b; double scale; std::string text, name; };
static Agg pick_agg()
{
    Agg g; g.a = ND_BELOW(3); g.b = ND_BELOW(3); g.op = ND_BELOW(17); g.scale = 1; const std::string A = "v" + std::to_string(g.a), B = "v" + std::to_string(g.b); std::string sc = q_num();
    static const char* un[] = { "sum", "inclusive_sum", "min", "max", "inclusive_min", "inclusive_max", "avg", "percent_total", "inclusive_percent_total", "any", "variance" }; static const char* nm[] = { "sum#", "inclusive#", "min#", "max#", "imin#", "imax#", "avg#", "percent_total#", "ipercent_total#", "any#", "variance#" };
    if (g.op < 11) { g.text = std::string(un[g.op]) + "(" + A + ")"; g.name = nm[g.op] + A; }
    else if (g.op == 11) { g.text = "count()"; g.name = "count"; }
    else if (g.op == 12 || g.op == 13) { g.scale = std::stod(sc); g.text = std::string(g.op == 12 ? "scale(" : "inclusive_scale(") + A + "," + sc + ")"; g.name = (g.op == 12 ? "scale#" : "iscale#") + A; }
    else if (g.op == 14 || g.op == 15) { if (ND_BOOL()) g.scale = std::stod(sc); else sc = ""; g.text = std::string(g.op == 14 ? "ratio(" : "inclusive_ratio(") + A + "," + B + (sc.empty() ? "" : "," + sc) + ")"; g.name = (g.op == 14 ? "ratio#" : "iratio#") + A + "/" + B; }
    else { g.scale = std::stod(sc); g.text = "scale_count(" + sc + ")"; g.name = "scount"; }
    return g;
}
static void check(CaliperMetadataDB& db, const Agg& g, const cali_attr_type* t, const Group& G, const double* total, const Rec& out)
{
    Variant v; unsigned n = 0; for (auto& e : out) if (e.is_immediate() && db.get_attribute(e.node()->id()).name() == g.name) { v = e.value(); ++n; }
    const bool incl = g.op == 1 || g.op == 4 || g.op == 5 || g.op == 8 || g.op == 13 || g.op == 15; const Stat &s = incl ? G.in[g.a] : G.ex[g.a], &s2 = incl ? G.in[g.b] : G.ex[g.b];
    bool want = s.n > 0; double w = 0, mag = s.mag; const bool flt = t[g.a] == CALI_TYPE_DOUBLE; bool exact = false; Variant ev; auto iv = [&](int64_t i) { exact = !flt; ev = t[g.a] == CALI_TYPE_INT ? Variant(CALI_TYPE_INT, &i, 8) : Variant(cali_make_variant_from_uint(i)); };
    switch (g.op) {
    case 0: case 1: w = s.sum; iv(s.is); break; case 2: case 4: w = s.mn; iv((int64_t) s.mn); break; case 3: case 5: w = s.mx; iv((int64_t) s.mx); break;
    case 6: want = s.n > 0; w = s.n ? s.sum / s.n : 0; if (want && n) { ENSURES(flt ? near(v.to_double(), w, mag / s.n) : std::fabs(v.to_double() - w) < 1 + g_tol * mag, "avg is the average (rounded for integers)"); } break;
    case 7: case 8: want = s.n > 0 && total[g.a] > 0; w = want ? 100.0 * s.sum / total[g.a] : 0; mag = want ? 100.0 * mag / total[g.a] : 0; break;
    case 9: if (want && n) ENSURES(std::any_of(s.seen.begin(), s.seen.end(), [&](double x) { return v.type() == t[g.a] && near(v.to_double(), x, std::fabs(x)); }), "any is one of the input values"); break;
    case 10: w = want ? s.sq / s.n - (s.sum / s.n) * (s.sum / s.n) : 0; mag = want ? s.sq / s.n : 0; break;
    case 11: want = G.count > 0; w = G.count; break; case 12: case 13: w = s.sum * g.scale; mag *= std::fabs(g.scale); break;
    case 14: case 15: want = s.n > 0 && s2.n > 0; if (want && s2.sum == 0) return; w = want ? g.scale * s.sum / s2.sum : 0; mag = want ? std::fabs(g.scale / s2.sum) * (s.mag + std::fabs(s.sum / s2.sum) * s2.mag) : 0; break;
    default: want = G.count > 0; w = g.scale * G.count; }
    ENSURES(n == (want ? 1u : 0u), "a result is put out exactly for groups that have input values for it"); if (!want || g.op == 6 || g.op == 9) return;
    if (exact) ENSURES(v == ev, "integer results are exact"); else ENSURES(near(v.to_double(), w, mag), "the result is the documented function of the group's values");
}
struct Query { KeySpec ks; std::vector<Agg> aggs; std::string text; };
static Query pick_query(bool mergeable)
{
    Query q; q.ks.all = q.ks.use_path = false; std::string s; std::set<std::string> used; for (unsigned n = 1 + ND_BELOW(4); n > 0; --n) { Agg g = pick_agg(); if (mergeable && (g.op == 1 || g.op == 4 || g.op == 5 || g.op == 8 || g.op == 13 || g.op == 15)) continue; if (!used.insert(g.name).second) continue; q.aggs.push_back(g); }
    if (q.aggs.empty()) { Agg g; g.op = 11; g.a = g.b = 0; g.scale = 1; g.text = "count()"; g.name = "count"; q.aggs.push_back(g); }
    s = ND_BOOL() ? "aggregate " : "select *,"; for (size_t i = 0; i < q.aggs.size(); ++i) s += (i ? "," : "") + q.aggs[i].text;
    if (ND_BELOW(4)) { s += " group by "; bool first = true; for (unsigned n = 1 + ND_BELOW(3); n > 0; --n) { static const char* k[] = { "path", "p0", "p1", "q0", "q1", "k0", "k1", "nosuch", "path", "prop:nested" }; const char* x = k[ND_BELOW(10)]; if ((std::string(x) == "path" || std::string(x) == "prop:nested") ? q.ks.use_path : q.ks.names.count(x) > 0) continue; s += (first ? "" : ",") + std::string(x); first = false; if (std::string(x) == "path" || std::string(x) == "prop:nested") q.ks.use_path = true; else q.ks.names.insert(x); } } else q.ks.all = true;
    q.text = s; return q;
}
struct Expect { std::vector<std::pair<Key, Group>> groups; double total[3] = { 0, 0, 0 };
    Group& get(const Key& k) { for (auto& g : groups) if (g.first == k) return g.second; groups.push_back({ k, Group() }); return groups.back().second; }
    void add(const CaliperMetadataDB& db, Gen& gen, const Rec& r, const KeySpec& ks) { Key k = key_of(db, r, ks); ++get(k).count; for (unsigned i = 0; i < 3; ++i) for (auto& e : r) if (e.is_immediate() && e.node()->id() == gen.vals[i].id()) { const double d = e.value().to_double(); const int64_t x = gen.t[i] == CALI_TYPE_DOUBLE ? 0 : e.value().to_int64(); total[i] += d; get(k).ex[i].add(d, x); Key a = k; for (;;) { get(a).in[i].add(d, x); if (a.path.size() < 2) break; a.path.pop_back(); } } }
};
static void check_output(CaliperMetadataDB& db, Gen& gen, const Query& q, Expect& ex, const std::vector<Rec>& out)
{
    // parents without own records appear if an inclusive result has a value for them
    const bool incl[3] = { std::any_of(q.aggs.begin(), q.aggs.end(), [](const Agg& g) { return g.a == 0 && (g.op == 1 || g.op == 4 || g.op == 5 || g.op == 8 || g.op == 13 || g.op == 15); }) || std::any_of(q.aggs.begin(), q.aggs.end(), [](const Agg& g) { return g.op == 15 && g.b == 0; }), std::any_of(q.aggs.begin(), q.aggs.end(), [](const Agg& g) { return (g.a == 1 && (g.op == 1 || g.op == 4 || g.op == 5 || g.op == 8 || g.op == 13 || g.op == 15)) || (g.op == 15 && g.b == 1); }), std::any_of(q.aggs.begin(), q.aggs.end(), [](const Agg& g) { return (g.a == 2 && (g.op == 1 || g.op == 4 || g.op == 5 || g.op == 8 || g.op == 13 || g.op == 15)) || (g.op == 15 && g.b == 2); }) };
    std::set<Key> seen; for (auto& r : out) {
        Key k = key_of(db, r, q.ks); ENSURES(seen.insert(k).second, "one output record per distinct key"); bool found = false; for (auto& g : ex.groups) if (g.first == k) { found = true; for (auto& a : q.aggs) check(db, a, gen.t, g.second, ex.total, r); } ENSURES(found, "every output record's key occurs in the input");
        // nothing but the key and results
        for (auto& e : r) if (e.is_reference()) for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) { Attribute a = db.get_attribute(n->attribute()); ENSURES(q.ks.all || (q.ks.use_path && a.is_nested()) || q.ks.names.count(a.name()), "output records have only key attributes"); }
    }
    for (auto& g : ex.groups) if (g.second.count > 0 || (incl[0] && g.second.in[0].n) || (incl[1] && g.second.in[1].n) || (incl[2] && g.second.in[2].n)) { /* nothing to put out for records without keys or results */ if (g.first == Key() && std::none_of(q.aggs.begin(), q.aggs.end(), [&](const Agg& a) { return a.op == 11 || a.op == 16 || g.second.ex[a.a].n || ((a.op == 14 || a.op == 15) && g.second.ex[a.b].n); })) continue; ENSURES(seen.count(g.first), "every key of the input has an output record"); }
}
CONTRACT(aggregate_groups)
{
    rd_setup(); g_tol = 1e-9; CaliperMetadataDB db; Gen gen(db); Query q = pick_query(false); CalQLParser p(q.text.c_str()); ENSURES(!p.error(), "the query is accepted"); Aggregator ag(p.spec()); Expect ex;
    for (unsigned n = ND_BELOW(ND_BELOW(4) ? 15 : 60); n > 0; --n) { Rec r = gen.record(); ex.add(db, gen, r, q.ks); ag.add(db, r); }
    std::vector<Rec> out; ag.flush(db, [&](CaliperMetadataAccessInterface&, const Rec& r) { out.push_back(r); }); check_output(db, gen, q, ex, out); REACH("end");
}
// aggregating parts and then the parts' results, possibly in another database, is aggregating everything
CONTRACT(aggregate_merge)
{
    rd_setup(); CaliperMetadataDB db, db2; Gen gen(db); Query q = pick_query(true); CalQLParser p(q.text.c_str()); ENSURES(!p.error(), "the query is accepted"); Expect ex; const bool via_file = ND_BOOL(); g_tol = via_file ? 4e-5 : 1e-9;
    Aggregator all(p.spec()); std::ostringstream os; std::vector<Rec> parts; const unsigned np = 1 + ND_BELOW(3); { OutputStream s; s.set_stream(&os); CaliWriter w(s);
    for (unsigned k = 0; k < np; ++k) { Aggregator part(p.spec()); for (unsigned n = ND_BELOW(12); n > 0; --n) { Rec r = gen.record(); ex.add(db, gen, r, q.ks); part.add(db, r); } part.flush(db, [&](CaliperMetadataAccessInterface&, const Rec& r) { if (via_file) w.write_snapshot(db, r); else parts.push_back(r); }); } }
    CaliperMetadataDB& od = via_file ? db2 : db; if (via_file) { CaliReader rd; std::istringstream is(os.str()); rd.read(is, db2, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& d, const Rec& r) { all.add(d, r); }); ENSURES(!rd.error(), "the output can be read"); } else for (auto& r : parts) all.add(db, r);
    std::vector<Rec> out; all.flush(od, [&](CaliperMetadataAccessInterface&, const Rec& r) { out.push_back(r); });
    // a percentage is of the total of all parts that have one
    check_output(od, gen, q, ex, out); REACH("end");
}
#else
CONTRACT(aggregate_groups) { REACH("end"); } CONTRACT(aggregate_merge) { REACH("end"); }
#endif

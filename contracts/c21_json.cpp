// JSON output is well-formed and shows every selected value
#include "vf.h"
#ifdef VF_NATIVE
#include "query.h"
#include "json.h"
typedef std::vector<Entry> Rec;
static bool numeric(cali_attr_type t) { return t == CALI_TYPE_INT || t == CALI_TYPE_UINT || t == CALI_TYPE_DOUBLE; }
static bool finite(const Variant& v) { return v.type() != CALI_TYPE_DOUBLE || std::isfinite(v.to_double()); }
struct Gen {
    CaliperMetadataDB db; std::vector<Attribute> attrs, ref, val, glob; std::vector<Node*> nodes; std::vector<std::string> keep;
    Gen()
    {
        keep.reserve(4000); static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE, CALI_TYPE_STRING };
        for (unsigned i = 0, n = 1 + ND_BELOW(7); i < n; ++i) {
            std::string name = ND_BELOW(3) ? "attr." + std::to_string(i) : rd_string(6, false); if (name.empty() || name == "path" || db.get_attribute(name)) continue;
            const cali_attr_type t = types[ND_BELOW(8)]; int prop = ND_BOOL() ? CALI_ATTR_ASVALUE : ND_BOOL() ? CALI_ATTR_NESTED : 0; if (!(prop & CALI_ATTR_NESTED) && ND_BELOW(6) == 0) prop |= CALI_ATTR_HIDDEN; if (!(prop & CALI_ATTR_NESTED) && ND_BELOW(5) == 0) prop |= CALI_ATTR_GLOBAL;
            Attribute ma[2]; Variant mv[2]; int nm = 0; if (!ref.empty() && ND_BELOW(3) == 0) { ma[0] = q_pick(ref); mv[0] = value(ma[0].type()); nm = 1; }
            Attribute a = db.create_attribute(name, t, prop, nm, ma, mv); attrs.push_back(a); (a.store_as_value() ? val : ref).push_back(a); if (a.is_global()) glob.push_back(a);
        }
    }
    Variant value(cali_attr_type t) { keep.emplace_back(); Variant v = rd_value(t, keep.back(), true); if (t == CALI_TYPE_DOUBLE && ND_BELOW(12) == 0) return Variant(NAN); if (t == CALI_TYPE_STRING && keep.back().empty()) { keep.back() = "s"; return Variant(CALI_TYPE_STRING, keep.back().data(), 1); } return v; }
    Node* node() { Node* p = nodes.empty() || ND_BELOW(3) == 0 ? nullptr : q_pick(nodes); Attribute a = q_pick(ref); Variant v = value(a.type()); nodes.push_back(db.make_tree_entry(1, &a, &v, p)); return nodes.back(); }
    Rec record() { Rec r; std::set<cali_id_t> used; for (unsigned n = ND_BELOW(7); n > 0; --n) if (ND_BOOL()) { if (!ref.empty()) r.push_back(Entry(nodes.empty() || ND_BOOL() ? node() : q_pick(nodes))); } else if (!val.empty()) { Attribute a = q_pick(val); if (used.insert(a.id()).second) r.push_back(Entry(a, value(a.type()))); } return r; }
};
struct Sel { bool all = true, path = false; std::vector<std::string> names; std::map<std::string, std::string> alias; std::string query;
    Sel(Gen& g, bool aliases)
    {
        if (ND_BOOL()) return; all = false; std::set<std::string> used; query = "select ";
        for (unsigned n = 1 + ND_BELOW(4); n > 0; --n) { if (names.empty() && ND_BELOW(8) == 0) { path = true; query = "select path "; return; } std::string s = g.attrs.empty() || ND_BELOW(8) == 0 ? "no\\\"such" : q_pick(g.attrs).name(); if (!used.insert(s).second) continue; query += (names.empty() ? "" : ",") + q_quote(s); names.push_back(s); if (aliases && ND_BELOW(3) == 0) { std::string al = "al." + std::to_string(n) + rd_string(4, false); alias[s] = al; query += " as " + q_quote(al); } }
        if (ND_BELOW(4) == 0) { path = true; query = ND_BOOL() || names.empty() ? "select path" + (names.empty() ? "" : "," + query.substr(7)) : query + ",path"; } query += " ";
    }
    bool has(const std::string& n) const { return std::find(names.begin(), names.end(), n) != names.end(); }
    bool shows(const Attribute& a) const { return all ? !a.is_hidden() && !a.is_global() : has(a.name()) || (path && a.is_nested()); }
    std::string title(const Attribute& a, bool nested_path) const { if (a.is_nested() && nested_path) return "path"; auto it = alias.find(a.name()); return rd_kept(it == alias.end() ? a.name() : it->second); }
};
static void check_globals(const Gen& g, const std::map<std::string, std::string>& want, const J& o)
{
    for (auto& w : want) { const J* v = o.get(w.first); ENSURES(v && v->t == J::Str && v->s == w.second, "each global value is shown under its name"); }
}
static std::map<std::string, std::string> set_globals(Gen& g) { std::map<std::string, std::string> m; for (auto& a : g.glob) if (ND_BOOL() && !a.is_nested()) { Variant v = g.value(a.type()); g.db.set_global(a, v); m[rd_kept(a.name())] = rd_kept(v.to_string()); } return m; }
CONTRACT(json_records)
{
    rd_setup(); Gen g; Sel sel(g, true); const bool pretty = ND_BOOL(), quote = ND_BOOL(), sep = ND_BOOL(); const int layout = ND_BELOW(4);
    std::string opts; auto opt = [&](const char* s) { opts += (opts.empty() ? "" : ",") + std::string(s); }; if (pretty) opt("pretty"); if (quote) opt("quote-all"); if (sep) opt("separate-nested"); if (layout == 1) opt("object"); if (layout == 2) opt("split"); if (layout == 3) opt("records");
    CalQLParser p((sel.query + "format json" + (opts.empty() ? "" : "(" + opts + ")")).c_str()); ENSURES(!p.error(), "the query is accepted");
    std::ostringstream os; OutputStream s; s.set_stream(&os); FormatProcessor fp(p.spec(), s); std::vector<std::map<std::string, std::pair<std::string, bool>>> want; std::map<std::string, std::string> globals = set_globals(g);
    for (unsigned n = ND_BELOW(6); n > 0; --n) {
        Rec r = g.record(); std::map<std::string, std::pair<std::string, bool>> w;
        for (auto& e : r) if (e.is_immediate()) { Attribute a = g.db.get_attribute(e.attribute()); if (sel.shows(a)) w[sel.title(a, !sep)] = { rd_kept(e.value().to_string()), !quote && numeric(a.type()) && finite(e.value()) }; }
            else for (const Node* x = e.node(); x && x->id() != CALI_INV_ID; x = x->parent()) { Attribute a = g.db.get_attribute(x->attribute()); if (!sel.shows(a)) continue; std::string k = sel.title(a, !sep), v = rd_kept(x->data().to_string()); auto it = w.find(k); w[k] = { it == w.end() ? v : v + "/" + it->second.first, false }; }
        if (!w.empty()) want.push_back(w); fp.process_record(g.db, r);
    }
    fp.flush(g.db); std::string out = os.str(); if (layout == 2) out = "[" + out + "]"; // the split layout leaves out the array's brackets
    J doc; JParser jp(out); const bool ok = jp.document(doc); if (getenv("VFD")) fprintf(stderr, "%s\n%s\n", jp.why.c_str(), out.c_str()); ENSURES(ok, "the output is well-formed JSON"); const J* recs = &doc;
    if (layout == 1) { ENSURES(doc.t == J::Obj, "the object layout is an object"); recs = doc.get("records"); ENSURES(recs && doc.get("globals") && doc.get("attributes"), "the object layout has records, globals and attributes"); check_globals(g, globals, *doc.get("globals"));
        const J& as = *doc.get("attributes"); for (auto& a : g.attrs) { const J* x = as.get(rd_kept(a.name())); const bool listed = (sel.all || sel.has(a.name()) || (sel.path && a.is_nested())) && !a.is_hidden() && (sep || !a.is_nested()); ENSURES(!listed || x, "each selected attribute is described"); if (x && listed) ENSURES(x->get("is_global") && x->get("is_global")->s == (a.is_global() ? "true" : "false") && x->get("is_nested") && x->get("is_nested")->s == (a.is_nested() ? "true" : "false"), "an attribute's description shows its properties"); }
        if (!sel.all) for (auto& m : as.o) ENSURES(g.db.get_attribute(m.first) || std::any_of(g.attrs.begin(), g.attrs.end(), [&](const Attribute& a) { return rd_kept(a.name()) == m.first; }), "only existing attributes are described"); }
    ENSURES(recs->t == J::Arr && recs->a.size() == want.size(), "there is one object for each record with a selected value");
    for (size_t i = 0; i < want.size(); ++i) {
        const J& o = recs->a[i]; ENSURES(o.t == J::Obj && o.o.size() == want[i].size(), "a record shows exactly its selected attributes");
        for (auto& w : want[i]) { const J* v = o.get(w.first); ENSURES(v && v->s == w.second.first, "a record shows each selected value, region paths outermost first"); ENSURES(!w.second.second || v->t == J::Num, "finite numbers are JSON numbers"); ENSURES(!quote || v->t == J::Str, "quote-all makes all values strings"); }
    }
    REACH("end");
}
CONTRACT(json_split)
{
    rd_setup(); Gen g; Sel sel(g, true); CalQLParser p((sel.query + "format json-split").c_str()); ENSURES(!p.error(), "the query is accepted");
    std::ostringstream os; OutputStream s; s.set_stream(&os); FormatProcessor fp(p.spec(), s); std::vector<Rec> recs; std::map<std::string, std::string> globals = set_globals(g);
    for (unsigned n = ND_BELOW(6); n > 0; --n) { recs.push_back(g.record()); fp.process_record(g.db, recs.back()); }
    fp.flush(g.db); J doc; std::string out = os.str(); JParser jp(out); const bool ok = jp.document(doc); if (getenv("VFD")) fprintf(stderr, "%s\n%s\n", jp.why.c_str(), out.c_str()); ENSURES(ok, "the output is well-formed JSON");
    const J *data = doc.get("data"), *cols = doc.get("columns"), *meta = doc.get("column_metadata"), *nodes = doc.get("nodes"); ENSURES(data && cols && meta && nodes, "all sections are there"); check_globals(g, globals, doc);
    ENSURES(data->a.size() == recs.size() && cols->a.size() == meta->a.size(), "one row per record, metadata for each column"); std::map<std::string, size_t> at; for (size_t i = 0; i < cols->a.size(); ++i) at[cols->a[i].s] = i;
    for (size_t i = 0; i < nodes->a.size(); ++i) { const J* q = nodes->a[i].get("parent"); ENSURES(!q || (q->t == J::Num && std::stoul(q->s) < i), "a parent node comes before its children"); }
    std::map<std::string, std::vector<Attribute>> want; for (auto& a : g.attrs) if (sel.shows(a)) want[sel.title(a, true)].push_back(a);
    for (auto& w : want) { ENSURES(at.count(w.first), "each selected attribute has a column"); const J* v = meta->a[at[w.first]].get("is_value"); ENSURES(v && v->s == (w.second[0].store_as_value() ? "true" : "false"), "is_value tells values from references"); }
    for (size_t i = 0; i < recs.size(); ++i) {
        const J& row = data->a[i]; ENSURES(row.t == J::Arr && row.a.size() == cols->a.size(), "a row has one element per column");
        for (auto& w : want) {
            const J& v = row.a[at[w.first]];
            if (w.second[0].store_as_value()) { Variant val; for (auto& e : recs[i]) if (e.is_immediate() && e.attribute() == w.second[0].id()) val = e.value(); bool any = !val.empty();
                ENSURES(any ? v.t != J::Null && v.s == rd_kept(val.to_string()) : v.t == J::Null, "a value column shows the record's value or null"); ENSURES(!any || !numeric(w.second[0].type()) || !finite(val) || v.t == J::Num, "finite numbers are JSON numbers"); }
            else { std::vector<std::string> path; for (auto& e : recs[i]) if (e.is_reference()) for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) for (auto& a : w.second) if (n->attribute() == a.id()) path.insert(path.begin(), rd_kept(n->data().to_string()));
                ENSURES(path.empty() ? v.t == J::Null : v.t == J::Num && std::stoul(v.s) < nodes->a.size(), "a reference column shows a node index or null"); if (path.empty()) continue; size_t k = std::stoul(v.s);
                while (true) { ENSURES(!path.empty() && nodes->a[k].get("label") && nodes->a[k].get("label")->s == path.back(), "the node's path is the record's path"); ENSURES(nodes->a[k].get("column") && nodes->a[k].get("column")->s == w.first, "a node belongs to its column"); path.pop_back(); const J* q = nodes->a[k].get("parent"); if (!q) break; k = std::stoul(q->s); }
                ENSURES(path.empty(), "the node's path is the record's whole path"); }
        }
    }
    REACH("end");
}
#else
CONTRACT(json_records) { REACH("end"); }
CONTRACT(json_split) { REACH("end"); }
#endif

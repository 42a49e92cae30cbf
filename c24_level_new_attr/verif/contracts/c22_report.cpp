// the text reports show every record
#include "vf.h"
#ifdef VF_NATIVE
#include "query.h"
#include <functional>
#include <memory>
typedef std::vector<Entry> Rec; typedef std::vector<std::string> Cells;
static std::string trim(const std::string& s) { size_t b = s.find_first_not_of(' '); return b == std::string::npos ? "" : s.substr(b, s.find_last_not_of(' ') - b + 1); }
static Cells lines_of(const std::string& s) { Cells r; std::string l; for (char c : s) if (c == '\n') { r.push_back(l); l.clear(); } else l += c; ENSURES(l.empty(), "the output ends with a complete line"); return r; }
struct Gen {
    CaliperMetadataDB db; std::vector<Attribute> attrs, ref, val; std::vector<Node*> nodes; std::vector<std::string> keep; bool longs; Attribute id;
    Gen() : longs(ND_BELOW(3) == 0)
    {
        keep.reserve(4000); static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING, CALI_TYPE_ADDR, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL, CALI_TYPE_TYPE, CALI_TYPE_STRING };
        for (unsigned i = 0, n = 1 + ND_BELOW(8); i < n; ++i) { cali_attr_type t = types[ND_BELOW(8)]; int prop = ND_BELOW(3) == 0 ? CALI_ATTR_ASVALUE : ND_BELOW(3) ? CALI_ATTR_NESTED : 0; if (!(prop & CALI_ATTR_NESTED) && ND_BELOW(7) == 0) prop |= CALI_ATTR_HIDDEN; if (!(prop & CALI_ATTR_NESTED) && ND_BELOW(7) == 0) prop |= CALI_ATTR_GLOBAL; Attribute a = db.create_attribute("c" + std::to_string(i), t, prop); attrs.push_back(a); (a.store_as_value() ? val : ref).push_back(a); }
    }
    Variant value(cali_attr_type t)
    {
        keep.emplace_back(); std::string& s = keep.back(); if (t != CALI_TYPE_STRING) { if (t == CALI_TYPE_INT && ND_BELOW(3)) { int64_t i = (int64_t) ND_BELOW(7) - 3; return Variant(CALI_TYPE_INT, &i, 8); } if (t == CALI_TYPE_UINT && ND_BELOW(3)) return Variant(cali_make_variant_from_uint(ND_BELOW(12))); return rd_value(t, s, false); }
        static const char ok[] = "abcxyz _-.;:<>01~"; for (unsigned n = 1 + ND_BELOW(longs ? 90 : 6); n > 0; --n) s += ok[ND_BELOW(17)]; if (s[0] == ' ') s[0] = 'q'; if (s.back() == ' ') s.back() = 'q'; return Variant(CALI_TYPE_STRING, s.data(), s.size());
    }
    Node* node() { Node* p = nodes.empty() || ND_BELOW(4) == 0 ? nullptr : q_pick(nodes); Attribute a = q_pick(ref); Variant v = value(a.type()); nodes.push_back(db.make_tree_entry(1, &a, &v, p)); return nodes.back(); }
    // with ORDER BY, each record has a distinct number to recognise it by
    void number(std::vector<Rec>& recs) { if (ND_BOOL()) return; id = db.create_attribute("id", CALI_TYPE_UINT, CALI_ATTR_ASVALUE); attrs.push_back(id); val.push_back(id); uint64_t i = 100; for (auto& r : recs) r.push_back(Entry(id, Variant(cali_make_variant_from_uint(i++)))); }
    Rec record() { Rec r; std::set<cali_id_t> used; for (unsigned n = ND_BELOW(6); n > 0; --n) if (ND_BOOL()) { if (!ref.empty()) r.push_back(Entry(nodes.empty() || ND_BELOW(3) == 0 ? node() : q_pick(nodes))); } else if (!val.empty()) { Attribute a = q_pick(val); if (used.insert(a.id()).second) r.push_back(Entry(a, value(a.type()))); } return r; }
};
// the text of an attribute in a record: its first entry there; path values outermost first
static std::string shown(const Rec& r, const Attribute& a)
{
    for (auto& e : r) { std::string s; if (e.is_immediate()) { if (e.attribute() == a.id()) s = e.value().to_string(); } else for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) if (n->attribute() == a.id()) s = n->data().to_string() + (s.empty() ? "" : "/") + s; if (!s.empty()) return s; } return "";
}
static bool fits(const std::string& cell, const std::string& full, size_t max) { if (full.size() <= max) return cell == trim(full); const std::string f = full; size_t t = cell.find("~~"); return !cell.empty() && cell.size() <= max && (max < 6 || (f.compare(0, 2, cell, 0, 2) == 0 && cell.back() == f.back())); }
struct Head { std::vector<std::pair<std::string, size_t>> cols; size_t start(size_t i) const { return cols[i].second; } size_t len(size_t i) const { return i + 1 < cols.size() ? cols[i + 1].second - cols[i].second : std::string::npos; }
    Head(const std::string& l) { for (size_t p = 0; p < l.size();) { if (l[p] == ' ') { ++p; continue; } size_t e = std::min(l.find(' ', p), l.size()); cols.push_back({ l.substr(p, e - p), p }); p = e; } }
    std::string cell(const std::string& l, size_t i) const { return start(i) >= l.size() ? "" : trim(l.substr(start(i), len(i))); }
    size_t find(const std::string& n) const { for (size_t i = 0; i < cols.size(); ++i) if (cols[i].first == n) return i; return cols.size(); } };
struct Key { Attribute a; bool desc; };
// out[i] < 0 / 0 / > 0; the last key is the most significant
static int order(const std::vector<Key>& k, const std::vector<Variant>& a, const std::vector<Variant>& b) { for (size_t i = k.size(); i-- > 0;) { int c = a[i] < b[i] ? -1 : b[i] < a[i] ? 1 : 0; if (k[i].desc) c = -c; if (c) return c; } return 0; }
static bool all(const std::vector<Variant>& v) { for (auto& x : v) if (x.empty()) return false; return true; }
struct Q { std::string text; std::vector<std::string> sel; std::map<std::string, std::string> alias; bool list = false, glob = false; std::vector<Key> keys; size_t max;
    std::string title(const std::string& n) const { auto it = alias.find(n); return it == alias.end() ? n : it->second; }
    Q(Gen& g, bool order, size_t dflt, std::vector<Attribute> keyattrs) : max(dflt)
    {
        if (g.id) { g.attrs.pop_back(); g.val.pop_back(); } struct Back { Gen& g; ~Back() { if (g.id) { g.attrs.push_back(g.id); g.val.push_back(g.id); } } } back { g }; if (!g.id) order = false;
        if (ND_BOOL()) { list = true; text = "select "; std::set<std::string> u; for (unsigned n = 1 + ND_BELOW(4); n > 0; --n) { std::string s = q_pick(g.attrs).name(); if (!u.insert(s).second) continue; text += (sel.empty() ? "" : ",") + s; sel.push_back(s); if (ND_BELOW(3) == 0) { alias[s] = "a" + std::to_string(n); text += " as " + alias[s]; } } text += " "; }
        if (list && g.id) { text += ",id "; sel.push_back("id"); }
        if (order && !keyattrs.empty() && ND_BELOW(3)) { text += "order by "; std::set<cali_id_t> u; for (unsigned n = 1 + ND_BELOW(2); n > 0; --n) { Attribute a = q_pick(keyattrs); if (!u.insert(a.id()).second) continue; const bool d = ND_BOOL(); text += (keys.empty() ? "" : ",") + a.name() + (d ? " desc" : ND_BOOL() ? " asc" : ""); keys.push_back({ a, d }); } text += " "; }
    }
    void format(const std::string& f, std::string args) { if (ND_BELOW(3) == 0) { static const char* w[] = { "8", "2", "12", "200", "33", "-1" }; unsigned k = ND_BELOW(6); args += (args.empty() ? "column-width=" : ",column-width=") + std::string(w[k]); static const size_t m[] = { 8, 4, 12, 200, 33, 100000 }; max = m[k]; } if (ND_BELOW(4) == 0) { glob = true; args += args.empty() ? "print-globals" : ",print-globals"; } text += "format " + f + (args.empty() ? "" : "(" + args + ")"); }
};
static void take_globals(Gen& g, Cells& ls, const std::vector<std::pair<std::string, std::string>>& want)
{
    size_t n = std::max<size_t>(want.size(), 1); ENSURES(ls.size() >= n, "all globals are printed"); std::multiset<std::string> got; for (size_t i = 0; i < want.size(); ++i) { size_t c = ls[i].find(": "); ENSURES(c != std::string::npos, "a global has a name and value"); bool found = false; for (auto& w : want) found = found || (trim(ls[i].substr(0, c)) == w.first && (fits(trim(ls[i].substr(c + 2)), w.second, 52) || trim(ls[i].substr(c + 2)) == w.second)); got.insert(trim(ls[i].substr(0, c))); ENSURES(found, "each global value is printed under its name"); } for (auto& w : want) ENSURES(got.count(w.first), "all globals are printed"); ls.erase(ls.begin(), ls.begin() + n);
}
static std::vector<std::pair<std::string, std::string>> set_globals(Gen& g) { std::vector<std::pair<std::string, std::string>> m; for (auto& a : g.attrs) if (a.is_global() && ND_BOOL()) { Variant v = g.value(a.type()); g.db.set_global(a, v); m.push_back({ a.name(), v.to_string() }); } return m; }
static std::string run(Gen& g, const std::string& q, const std::vector<Rec>& recs)
{
    CalQLParser p(q.c_str()); if (p.error() && getenv("VFD")) fprintf(stderr, "%s\n", q.c_str()); ENSURES(!p.error(), "the query is accepted"); std::ostringstream os; OutputStream s; s.set_stream(&os); { FormatProcessor fp(p.spec(), s); for (auto& r : recs) fp.process_record(g.db, r); fp.flush(g.db); } if (getenv("VFD")) fprintf(stderr, "%s\n%s", q.c_str(), os.str().c_str()); return os.str();
}
CONTRACT(table_rows)
{
    rd_setup(); Gen g; std::vector<Rec> recs; for (unsigned n = ND_BELOW(9); n > 0; --n) recs.push_back(g.record()); g.number(recs); auto globals = set_globals(g); Q q(g, true, 60, g.val); q.format("table", ""); Cells ls = lines_of(run(g, q.text, recs)); if (q.glob) take_globals(g, ls, globals);
    ENSURES(!ls.empty(), "the table has a header line"); Head h(ls[0]); std::vector<Attribute> cols; if (q.list) for (auto& s : q.sel) cols.push_back(g.db.get_attribute(s)); else for (auto& a : g.attrs) if (!a.is_hidden() && !a.is_global() && std::any_of(recs.begin(), recs.end(), [&](const Rec& r) { return !shown(r, a).empty(); })) cols.push_back(a);
    ENSURES(h.cols.size() == cols.size(), "there is one column for each selected attribute, or each visible attribute in the records"); std::vector<size_t> at; for (size_t i = 0; i < cols.size(); ++i) { at.push_back(h.find(q.title(cols[i].name()))); ENSURES(at[i] < h.cols.size(), "the columns have the attributes' names or aliases"); ENSURES(!q.list || at[i] == i, "columns are in SELECT order"); }
    std::vector<const Rec*> want; for (auto& r : recs) { bool act = false; for (auto& a : cols) act = act || !shown(r, a).empty(); for (auto& k : q.keys) act = act || !shown(r, k.a).empty(); if (act) want.push_back(&r); }
    ENSURES(ls.size() == want.size() + 1, "there is one row for each record with a value in a column"); std::vector<bool> used(want.size()); std::vector<std::vector<Variant>> sorted;
    for (size_t i = 1; i < ls.size(); ++i) {
        // without ORDER BY rows are in record order; otherwise each row stands for some record not seen yet
        size_t k = want.size(); for (size_t j = 0; j < want.size() && k == want.size(); ++j) if (!used[j]) { bool m = true; for (size_t c = 0; c < cols.size(); ++c) m = m && fits(h.cell(ls[i], at[c]), shown(*want[j], cols[c]), q.max); if (m) { std::vector<Variant> v; for (auto& x : q.keys) { g.keep.push_back(shown(*want[j], x.a)); v.push_back(Variant::from_string(x.a.type(), g.keep.back().c_str())); } bool ok = true; if (all(v)) for (auto& b : sorted) if (all(b) && order(q.keys, b, v) > 0) ok = false; if (ok || q.keys.empty()) { k = j; used[j] = true; sorted.push_back(v); } } if (q.keys.empty() && k != j) break; }
        ENSURES(k < want.size(), "a row shows a record's values in the columns, in ORDER BY order");
    }
    REACH("end");
}
struct T { Attribute a; Variant v; std::vector<T*> kids; T* up; std::vector<std::vector<std::pair<Attribute, Variant>>> recs; };
static Variant ext(const T* t, const Key& k) { Variant m; auto take = [&](const Variant& v) { if (!v.empty() && (m.empty() || (k.desc ? m < v : v < m))) m = v; }; for (auto& r : t->recs) for (auto& p : r) if (p.first == k.a) { take(p.second); break; } for (auto c : t->kids) take(ext(c, k)); return m; }
CONTRACT(tree_lines)
{
    rd_setup(); Gen g; std::vector<Rec> recs; for (unsigned n = ND_BELOW(9); n > 0; --n) recs.push_back(g.record()); g.number(recs); auto globals = set_globals(g); std::vector<Attribute> keyattrs = g.val; Q q(g, true, 48, keyattrs);
    std::vector<std::string> pathnames; if (ND_BELOW(3) == 0 && !g.ref.empty()) for (unsigned n = 1 + ND_BELOW(2); n > 0; --n) pathnames.push_back(q_pick(g.ref).name()); std::string args; for (auto& s : pathnames) args += (args.empty() ? "" : ",") + s; if (!args.empty()) args = "\"" + args + "\""; else if (ND_BELOW(4) == 0) args = "path"; q.format("tree", args);
    auto is_path = [&](const Attribute& a) { return pathnames.empty() ? a.is_nested() : std::find(pathnames.begin(), pathnames.end(), a.name()) != pathnames.end(); };
    std::vector<std::unique_ptr<T>> own; T root; root.up = nullptr; size_t total = 0;
    for (auto& r : recs) {
        std::vector<std::pair<Attribute, Variant>> path, data; auto push = [&](cali_id_t id, const Variant& v) { Attribute a = g.db.get_attribute(id); if (is_path(a)) path.push_back({ a, v }); else if (!std::any_of(data.begin(), data.end(), [&](const std::pair<Attribute, Variant>& p) { return p.first == a; })) data.push_back({ a, v }); };
        for (auto& e : r) if (e.is_immediate()) push(e.attribute(), e.value()); else for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) push(n->attribute(), n->data());
        if (path.empty()) continue; T* t = &root; for (size_t i = path.size(); i-- > 0;) { T* k = nullptr; for (auto c : t->kids) if (c->a == path[i].first && c->v == path[i].second) k = c; if (!k) { own.emplace_back(new T); k = own.back().get(); k->a = path[i].first; k->v = path[i].second; k->up = t; t->kids.push_back(k); } t = k; } t->recs.push_back(data);
    }
    Cells ls = lines_of(run(g, q.text, recs)); if (q.glob) take_globals(g, ls, globals); ENSURES(!ls.empty(), "there is a header line"); Head h(ls[0]); ENSURES(!h.cols.empty() && h.cols[0].first == "Path", "the first column is the path"); size_t line = 1;
    auto occurs = [&](const Attribute& a) { for (auto& t : own) for (auto& r : t->recs) for (auto& p : r) if (p.first == a) return true; return false; };
    std::vector<std::pair<Attribute, size_t>> cols; for (auto& a : g.attrs) { bool want = occurs(a) && (q.list ? std::find(q.sel.begin(), q.sel.end(), a.name()) != q.sel.end() : !a.is_hidden() && !a.is_global()); if (want) { cols.push_back({ a, h.find(q.title(a.name())) }); ENSURES(cols.back().second < h.cols.size(), "there is a column for each selected attribute, or each visible attribute in the records"); } else ENSURES(q.list || h.find(q.title(a.name())) == h.cols.size(), "hidden attributes have no column"); }
    const size_t pathw = h.cols.size() > 1 ? h.cols[1].second : std::string::npos; const bool exact = !q.list || cols.size() == q.sel.size(); // a selected attribute without values leaves an unnamed column
    auto cells = [&](const std::string& l, const std::vector<std::pair<Attribute, Variant>>& rec) { for (auto& c : cols) { std::string w; for (auto& p : rec) if (p.first == c.first) w = p.second.to_string(); if (!(exact ? fits(h.cell(l, c.second), w, q.max) : w.empty() || fits(h.cell(l, c.second).substr(0, w.size()), w, q.max) || w.size() > q.max || h.cell(l, c.second).find(w) != std::string::npos)) return false; } return true; };
    size_t W = 4; for (auto& t : own) { size_t level = 0; for (T* u = t->up; u != &root; u = u->up) ++level; W = std::max(W, 2 * level + t->v.to_string().size()); } W = std::min(W, q.max); // labels are as wide as fits
    typedef std::vector<std::vector<Variant>> Seen; std::function<size_t(T*)> size = [&](T* t) { size_t n = t->recs.size() > 1 ? 1 + t->recs.size() : 1; for (auto c : t->kids) n += size(c); return n; };
    std::function<bool(T*, int, size_t)> node; std::function<bool(T*, int, size_t, std::vector<bool>, Seen)> kids;
    // the lines from `line` on show the children of t not shown yet, in some order that agrees with ORDER BY
    kids = [&](T* t, int level, size_t line, std::vector<bool> seen, Seen sorted) {
        bool left = false; for (size_t j = 0; j < t->kids.size(); ++j) if (!seen[j]) {
            left = true; std::vector<Variant> v; for (auto& x : q.keys) v.push_back(ext(t->kids[j], x)); bool ok = true; if (all(v)) for (auto& b : sorted) if (order(q.keys, b, v) > 0) ok = false; if (!ok || !node(t->kids[j], level, line)) continue;
            auto s2 = seen; s2[j] = true; auto o2 = sorted; if (all(v)) o2.push_back(v); if (kids(t, level, line + size(t->kids[j]), s2, o2)) return true; }
        return !left; };
    node = [&](T* c, int level, size_t line) {
        if (line + size(c) > ls.size()) return false; const std::string& l = ls[line]; const size_t in = std::min<size_t>(2 * level, W - 2), room = 2u * level < W ? W - 2 * level : 0; const std::string rest = room > 0 && l.size() > in ? trim(l.substr(in, pathw == std::string::npos ? pathw : pathw - in)) : "", lab = c->v.to_string();
        if (room > 0 && (l.compare(0, in, std::string(in, ' ')) != 0 || !(room >= lab.size() ? (exact ? rest == lab : rest.compare(0, lab.size(), lab) == 0) : !exact || fits(rest, lab, room)))) return false;
        if (c->recs.size() == 1 && !cells(l, c->recs[0])) return false; if (c->recs.empty() && !cells(l, {})) return false;
        // a node with several records has a line for each of them below its own
        if (c->recs.size() > 1) { ++line; std::vector<bool> u(c->recs.size()); Seen rs; for (size_t i = 0; i < c->recs.size(); ++i, ++line) { bool f = false; for (size_t x = 0; x < c->recs.size() && !f; ++x) if (!u[x] && cells(ls[line], c->recs[x])) { std::vector<Variant> v; for (auto& k : q.keys) { v.emplace_back(); for (auto& p : c->recs[x]) if (p.first == k.a) v.back() = p.second; } bool ok = true; if (all(v)) for (auto& b : rs) if (order(q.keys, b, v) > 0) ok = false; if (!ok) continue; f = u[x] = true; if (all(v)) rs.push_back(v); } if (!f) return false; } } else ++line;
        return kids(c, level + 1, line, std::vector<bool>(c->kids.size()), {}); };
    line += size(&root) - 1; ENSURES(line == ls.size(), "there is one line for each node and one for each further record"); ENSURES(kids(&root, 0, 1, std::vector<bool>(root.kids.size()), {}), "a node's line has its label below its parent, its records' values, and comes in ORDER BY order"); REACH("end");
}
CONTRACT(expand_lines)
{
    rd_setup(); Gen g; std::vector<Rec> recs; for (unsigned n = ND_BELOW(9); n > 0; --n) recs.push_back(g.record()); Q q(g, false, 0, {}); q.text += "format expand"; Cells ls = lines_of(run(g, q.text, recs)); size_t k = 0; auto sel = [&](const Attribute& a) { return !q.list || std::find(q.sel.begin(), q.sel.end(), a.name()) != q.sel.end(); };
    for (auto& r : recs) { std::multiset<std::string> want, got; for (auto& e : r) if (e.is_immediate()) { Attribute a = g.db.get_attribute(e.attribute()); if (sel(a)) want.insert(q.title(a.name()) + "=" + e.value().to_string()); } else { std::map<cali_id_t, std::string> m; for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) if (sel(g.db.get_attribute(n->attribute()))) { auto it = m.find(n->attribute()); std::string s = n->data().to_string(); if (it == m.end()) m[n->attribute()] = s; else it->second = s + "/" + it->second; } for (auto& p : m) want.insert(q.title(g.db.get_attribute(p.first).name()) + "=" + p.second); }
        if (want.empty()) continue; ENSURES(k < ls.size(), "there is one line for each record with a selected value"); std::string w; for (char c : ls[k] + ",") if (c == ',') { got.insert(w); w.clear(); } else w += c; ++k; ENSURES(got == want, "a line has the key and value of each selected entry"); }
    ENSURES(k == ls.size(), "there are no other lines"); REACH("end");
}
CONTRACT(format_lines)
{
    rd_setup(); Gen g; std::vector<Rec> recs; for (unsigned n = ND_BELOW(7); n > 0; --n) recs.push_back(g.record()); struct F { std::string prefix; Attribute a; size_t w; }; std::vector<F> fs; std::string f; static const char ok[] = "ab :;-0";
    for (unsigned n = 1 + ND_BELOW(4); n > 0; --n) { F x; for (unsigned m = fs.empty() ? 1 + ND_BELOW(3) : ND_BELOW(4); m > 0; --m) x.prefix += ok[ND_BELOW(7)]; if (x.prefix.empty() && fs.empty()) x.prefix = "x"; x.w = ND_BOOL() ? 0 : ND_BELOW(4) ? ND_BELOW(20) : ND_BELOW(300); const bool none = ND_BELOW(8) == 0; x.a = none ? Attribute() : q_pick(g.attrs); const std::string nm = none ? "nosuch" : x.a.name(), w = x.w ? "[" + std::to_string(x.w) + "]" : ""; f += x.prefix + "%" + (ND_BELOW(4) ? w + nm : nm + w) + "%"; fs.push_back(x); }
    if (ND_BOOL()) { F x; x.prefix = "end"; x.w = 0; f += "end"; fs.push_back(x); } const bool title = ND_BOOL(); Cells ls = lines_of(run(g, "format format(" + q_quote(f) + (title ? ",\"the title\")" : ")"), recs)); if (title) { ENSURES(!ls.empty() && ls[0] == "the title", "the title comes first"); ls.erase(ls.begin()); }
    ENSURES(ls.size() == recs.size(), "there is one line for each record"); for (size_t i = 0; i < recs.size(); ++i) { std::string w; for (auto& x : fs) { std::string v = x.a ? shown(recs[i], x.a) : ""; w += x.prefix + v; if (v.size() < x.w) w += std::string(x.w - v.size(), ' '); } ENSURES(ls[i] == w, "a line has the format's text with the record's values, padded to the given widths"); }
    REACH("end");
}
#else
CONTRACT(table_rows) { REACH("end"); }
CONTRACT(tree_lines) { REACH("end"); }
CONTRACT(expand_lines) { REACH("end"); }
CONTRACT(format_lines) { REACH("end"); }
#endif

// region filters and the event service: a snapshot is taken at exactly the selected region events, with the event's information
#include "vf.h"
#ifdef VF_NATIVE
#include "runtime.h"
#include "caliper/RegionFilter.h"
#include <regex>
static std::string quoted(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + '"'; }
static const char* const NAMES[] = { "main", "foo", "foo_bar", "MPI_Send", "MPI_Recv", "a b", "x,y", "f(x)", "a.b", "loop", "m", "\"q\"", "main loop" };
static std::string rname() { if (ND_BELOW(6) == 0) { static const char al[] = "amfo_ .(,"; std::string s; for (unsigned n = 1 + ND_BELOW(4); n > 0; --n) s += al[ND_BELOW(9)]; return s; } return NAMES[ND_BELOW(13)]; }
// a list of patterns: its text and what it selects
struct Pats {
    std::vector<std::string> match, starts; std::vector<std::pair<int, std::string>> rx; std::string text;
    bool empty() const { return match.empty() && starts.empty() && rx.empty(); }
    bool sel(const std::string& v) const
    {
        for (auto& m : match) if (v == m) return true; for (auto& m : starts) if (v.compare(0, m.size(), m) == 0) return true;
        for (auto& r : rx) { const std::string& l = r.second; const size_t at = v.find(l); if (r.first == 0 ? v == l : r.first == 1 ? at != std::string::npos : r.first == 2 ? at == 0 : v.size() >= l.size() && v.compare(v.size() - l.size(), l.size(), l) == 0) return true; }
        return false;
    }
};
static std::string ws() { static const char* w[] = { "", "", " ", "  ", "\t" }; return w[ND_BELOW(5)]; }
static std::string word(const std::string& s)
{
    bool sp = false; for (char c : s) sp = sp || isspace((unsigned char) c) || strchr(",()\"\\", c); if (sp || s == "match" || s == "startswith" || s == "regex" || ND_BELOW(3) == 0) { if (ND_BOOL()) return quoted(s); std::string r; for (char c : s) { if (isspace((unsigned char) c) || strchr(",()\"\\", c)) r += '\\'; r += c; } return r; } return s;
}
static Pats pats(unsigned max)
{
    Pats p; for (unsigned n = ND_BELOW(max + 1), i = 0; i < n; ++i) {
        std::string t; const unsigned k = ND_BELOW(4); if (k == 0) { p.match.push_back(rname()); t = word(p.match.back()); }
        else { static const char* f[] = { "match", "startswith", "regex" }; t = f[k - 1] + ws() + "("; for (unsigned m = 1 + ND_BELOW(3), j = 0; j < m; ++j) { std::string w = rname(); if (k == 1) p.match.push_back(w); else if (k == 2) { w = w.substr(0, 1 + ND_BELOW(w.size())); p.starts.push_back(w); } else { std::string e; for (char c : w) { if (strchr("().\"", c) && c != '"') e += '\\'; e += c; } const int q = ND_BELOW(4); p.rx.push_back({ q, w }); w = (q == 1 || q == 3 ? ".*" : "") + e + (q == 1 || q == 2 ? ".*" : ""); }
            t += (j ? ws() + "," : "") + ws() + word(w); } t += ws() + ")"; }
        p.text += (i ? ws() + "," : "") + ws() + t; }
    p.text += ws(); return p;
}
static bool passes(const Pats& in, const Pats& ex, const std::string& v) { return !(!ex.empty() && ex.sel(v)) && (in.empty() || in.sel(v)); }
CONTRACT(filter_pass)
{
    Pats in = pats(3), ex = ND_BOOL() ? pats(3) : Pats(); auto p = RegionFilter::from_config(in.text, ex.text); ENSURES(p.second.empty(), "a pattern list in the documented form is accepted"); ENSURES(p.first.has_filters() == !(in.empty() && ex.empty()), "only pattern lists filter");
    for (int i = 0; i < 12; ++i) {
        std::string v = rname(); const unsigned k = ND_BELOW(4); auto pick = [&](const Pats& q) { if (!q.match.empty() && ND_BOOL()) v = q.match[ND_BELOW(q.match.size())]; else if (!q.starts.empty()) v = q.starts[ND_BELOW(q.starts.size())]; else if (!q.rx.empty()) v = q.rx[ND_BELOW(q.rx.size())].second; }; if (k == 0) pick(in); if (k == 1) pick(ex);
        if (ND_BELOW(4) == 0) v += "x"; if (ND_BELOW(4) == 0) v = "x" + v; if (ND_BELOW(6) == 0) v.pop_back(); std::unique_ptr<char[]> buf(new char[v.size() ? v.size() : 1]); memcpy(buf.get(), v.data(), v.size());
        ENSURES(p.first.pass(Variant(CALI_TYPE_STRING, buf.get(), v.size())) == passes(in, ex, v), "a name passes if no exclude pattern matches it and, with include patterns, one of those does"); }
    REACH("end");
}
CONTRACT(filter_errors)
{
    Pats a = pats(2); std::string bad; static const char* f[] = { "match", "startswith", "regex" }; switch (ND_BELOW(4)) { case 0: bad = std::string(f[ND_BELOW(3)]) + "(" + word(rname()); break; case 1: bad = std::string(f[ND_BELOW(3)]) + "(a,b(c)"; break; case 2: bad = "regex([a)"; break; default: bad = "regex(\"(x\")"; }
    const std::string t = a.text + (a.empty() ? "" : ",") + bad; auto p = ND_BOOL() ? RegionFilter::from_config(t, "") : RegionFilter::from_config("", t); ENSURES(!p.second.empty(), "an invalid pattern list is reported"); ENSURES(!p.first.has_filters(), "an invalid pattern list does not filter"); REACH("end");
}
struct At { Attribute a; std::string name; cali_attr_type type; int prop; bool val, proc, unal; int level; };
static std::vector<At> g_at; static std::map<cali_id_t, std::string> g_name; static unsigned g_ser;
static int g_kinds[] = { CALI_ATTR_NESTED, 0, CALI_ATTR_ASVALUE, CALI_ATTR_NESTED | CALI_ATTR_LEVEL_4, CALI_ATTR_SKIP_EVENTS | CALI_ATTR_NESTED, CALI_ATTR_LEVEL_1, CALI_ATTR_UNALIGNED, CALI_ATTR_ASVALUE | CALI_ATTR_LEVEL_7, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN };
static At& attr(Caliper& c, const std::string& name, int kind, bool str)
{
    At a; a.prop = g_kinds[kind]; if ((a.prop & CALI_ATTR_SCOPE_MASK) == 0) a.prop |= CALI_ATTR_SCOPE_THREAD; a.type = str && !(a.prop & CALI_ATTR_ASVALUE) ? CALI_TYPE_STRING : CALI_TYPE_INT; a.name = name; a.a = c.create_attribute(name, a.type, a.prop); a.val = a.prop & CALI_ATTR_ASVALUE; a.proc = (a.prop & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS; a.unal = a.prop & CALI_ATTR_UNALIGNED; a.level = (a.prop & CALI_ATTR_LEVEL_MASK) >> 16; g_name[a.a.id()] = name; g_at.push_back(a); return g_at.back();
}
typedef std::multiset<std::string> MS;
static const std::string& nameof(Caliper* c, cali_id_t id) { auto it = g_name.find(id); if (it == g_name.end()) { std::string n = c->get_attribute(id).name(); if (n.compare(0, 6, "event.") != 0 && n != "region.count") n = ""; it = g_name.emplace(id, n).first; } return it->second; }
static std::string estr(Caliper* c, const Entry& e)
{
    std::string s; if (e.is_immediate()) { const std::string& n = nameof(c, e.attribute()); return n.empty() ? "" : n + ":" + e.value().to_string(); }
    for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) { const std::string& a = nameof(c, n->attribute()); if (!a.empty()) s = "/" + a + "=" + n->data().to_string() + s; } return s;
}
static MS rstr(Caliper* c, SnapshotView v) { MS m; for (const Entry& e : v) { std::string s = estr(c, e); if (!s.empty()) m.insert(s); } return m; }
CONTRACT(event_history)
{
    rt_setup(); Caliper c = Caliper::instance(); if (g_at.empty()) { g_at.reserve(4096); for (int k = 0; k < 10; ++k) { attr(c, "ev.s" + std::to_string(k), k, true); attr(c, "ev.i" + std::to_string(k), k, false); } }
    struct Chan { Channel ch; Pats in, ex, br; std::set<std::string> trig; int level = 0; bool info = true, active = true; std::vector<MS> got; std::vector<MS> want; };
    std::vector<std::unique_ptr<Chan>> chs;
    auto open = [&] {
        std::unique_ptr<Chan> k(new Chan); Chan* K = k.get(); RuntimeConfig cfg; cfg.allow_read_env(false); cfg.set("CALI_SERVICES_ENABLE", "event"); cfg.set("CALI_CHANNEL_FLUSH_ON_EXIT", "false");
        if (ND_BOOL()) k->in = pats(2); if (ND_BOOL()) k->ex = pats(2); if (ND_BOOL()) k->br = pats(2); cfg.set("CALI_EVENT_INCLUDE_REGIONS", k->in.text); cfg.set("CALI_EVENT_EXCLUDE_REGIONS", k->ex.text); cfg.set("CALI_EVENT_INCLUDE_BRANCHES", k->br.text);
        if (ND_BELOW(3) == 0) { std::string t; for (unsigned n = 1 + ND_BELOW(8); n > 0; --n) { const std::string& a = g_at[ND_BELOW(g_at.size())].name; t += (t.empty() ? "" : ND_BOOL() ? "," : ":") + a; k->trig.insert(a); } cfg.set("CALI_EVENT_TRIGGER", t); }
        if (ND_BELOW(3) == 0) { const unsigned l = ND_BELOW(9); k->level = l == 8 ? 4 : (int) l; cfg.set("CALI_EVENT_REGION_LEVEL", l == 8 ? "phase" : std::to_string(l)); }
        if (ND_BELOW(3) == 0) { k->info = false; cfg.set("CALI_EVENT_ENABLE_SNAPSHOT_INFO", "false"); }
        k->ch = c.create_channel(("ev" + std::to_string(++g_ser)).c_str(), cfg); k->ch.events().process_snapshot.connect([K](Caliper* c, SnapshotView, SnapshotView r) { K->got.push_back(rstr(c, r)); }); c.activate_channel(k->ch); chs.push_back(std::move(k)); };
    open(); if (ND_BELOW(3) == 0) open();
    typedef std::vector<std::pair<int, std::string>> St; struct T { Actor a; St st; std::map<int, std::string> val; }; std::vector<std::unique_ptr<T>> ts; for (unsigned n = 1 + ND_BELOW(3); n > 0; --n) ts.emplace_back(new T);
    St pst;   // the process scope's regions
    auto marked = [&](Chan& k, const At& a) { return !(a.prop & CALI_ATTR_SKIP_EVENTS) && a.level >= k.level && (k.trig.empty() || k.trig.count(a.name)); };
    auto inside = [&](Chan& k, T& t, int i, const std::string& v) {
        auto is = [&](int i, const std::string& v) { return g_at[i].type == CALI_TYPE_STRING && marked(k, g_at[i]) && k.br.sel(v); };
        if (is(i, v)) return true; for (auto& p : t.st) if (is(p.first, p.second)) return true; for (auto& p : pst) if (is(p.first, p.second)) return true; return false; };
    auto expect = [&](T& t, Caliper& c, int i, const char* ev, const std::string& v) {
        const At& a = g_at[i]; FixedSizeSnapshotRecord<80> rec; c.pull_context(rec.builder()); const MS ctx = rstr(&c, rec.view()); const std::string bb = estr(&c, c.get_blackboard_entry(a.a));
        for (auto& k : chs) if (k->active && marked(*k, a) && (a.type != CALI_TYPE_STRING || passes(k->in, k->ex, v)) && (k->br.empty() || inside(*k, t, i, v))) {
            MS w = ctx; if (k->info) { const std::string n = std::string("event.") + ev + "#" + a.name; if (a.val) w.insert(n + ":" + v); else { if (!bb.empty()) w.erase(w.find(bb)); w.insert(bb + "/" + n + "=" + v); } } if (*ev == 'e') w.insert("region.count:1"); k->want.push_back(w); } };
    auto step = [&](T& t, int i, int op) { if (getenv("VFD")) fprintf(stderr, "T%p op %d %s\n", (void*) &t, op, g_at[i].name.c_str());
        Caliper c = Caliper::instance(); const At& a = g_at[i]; St& st = a.proc ? pst : t.st; std::string v = a.type == CALI_TYPE_STRING ? rname() : std::to_string((int) ND_BELOW(4)); Variant x; std::unique_ptr<char[]> buf(new char[v.size() + 1]); memcpy(buf.get(), v.c_str(), v.size() + 1); if (a.type == CALI_TYPE_STRING) x = Variant(CALI_TYPE_STRING, buf.get(), v.size()); else x = Variant(atoi(v.c_str()));
        if (op == 0) { expect(t, c, i, "begin", v); c.begin(a.a, x); if (a.val) t.val[i] = v; else st.push_back({ i, v }); }
        else if (op == 1) { expect(t, c, i, "set", v); c.set(a.a, x); if (a.val) t.val[i] = v; else { for (size_t k = st.size(); k-- > 0;) if (st[k].first == i) { st.erase(st.begin() + k); break; } st.push_back({ i, v }); } }
        else { if (a.val) v = t.val[i]; else for (auto& p : st) if (p.first == i) v = p.second; expect(t, c, i, "end", v); c.end(a.a); if (a.val) t.val.erase(i); else for (size_t k = st.size(); k-- > 0;) if (st[k].first == i) { st.erase(st.begin() + k); break; } }
        for (auto& k : chs) { if (getenv("VFD") && !(k->got == k->want)) { fprintf(stderr, "in=[%s] ex=[%s] br=[%s] op %d %s=%s\n", k->in.text.c_str(), k->ex.text.c_str(), k->br.text.c_str(), op, a.name.c_str(), v.c_str()); for (auto& m : k->got) { fprintf(stderr, " got "); for (auto& s : m) fprintf(stderr, "%s; ", s.c_str()); } for (auto& m : k->want) { fprintf(stderr, " want "); for (auto& s : m) fprintf(stderr, "%s; ", s.c_str()); } fprintf(stderr, "\n"); }
            ENSURES(k->got.size() == k->want.size(), "a snapshot is taken exactly at the selected events"); ENSURES(k->got == k->want, "an event snapshot has the regions open at the event and the event's information"); k->got.clear(); k->want.clear(); } };
    for (unsigned n = ND_BELOW(60); n > 0; --n) {
        T& t = *ts[ND_BELOW(ts.size())];
        switch (ND_BELOW(12)) {
        case 0: { Chan& k = *chs[ND_BELOW(chs.size())]; k.active = !k.active; if (k.active) c.activate_channel(k.ch); else c.deactivate_channel(k.ch); break; }
        case 1: if (chs.size() < 3) open(); break;
        case 2: if (g_at.size() < 300) attr(c, "ev.n" + std::to_string(g_at.size()), ND_BELOW(10), ND_BELOW(4) != 0); break;
        case 3: case 4: case 5: case 6: { int i = ND_BELOW(g_at.size()); St& st = g_at[i].proc ? pst : t.st; if (st.size() < 8 && t.val.size() < 8) t.a.run([&] { step(t, i, 0); }); break; }
        case 7: { int i = ND_BELOW(g_at.size()); St& st = g_at[i].proc ? pst : t.st; if (st.size() < 8 && t.val.size() < 8) t.a.run([&] { step(t, i, 1); }); break; }
        default: { St* st = ND_BELOW(4) ? &t.st : &pst; if (!t.val.empty() && ND_BELOW(3) == 0) { int i = t.val.begin()->first; t.a.run([&] { step(t, i, 2); }); } else if (!st->empty()) {
            // regions end in nesting order within a stack; unaligned ones have their own
            int i = -1; for (auto& p : *st) if (!g_at[p.first].unal || i < 0) i = p.first; if (ND_BELOW(4) == 0) for (auto& p : *st) if (g_at[p.first].unal) i = p.first; t.a.run([&] { step(t, i, 2); }); } } } }
    for (auto& tp : ts) { T& t = *tp; t.a.run([&] { while (!t.val.empty()) step(t, t.val.begin()->first, 2); auto drain = [&](St& st) { while (!st.empty()) { int i = -1; for (auto& p : st) if (!g_at[p.first].unal) i = p.first; if (i < 0) i = st.back().first; step(t, i, 2); } }; drain(t.st); if (&tp == &ts.back()) drain(pst); }); }
    for (auto& k : chs) c.delete_channel(k->ch); REACH("end");
}
#else
CONTRACT(filter_pass) { REACH("end"); } CONTRACT(filter_errors) { REACH("end"); } CONTRACT(event_history) { REACH("end"); }
#endif

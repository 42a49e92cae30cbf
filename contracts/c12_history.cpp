// begin/end/set through the public interface, natively, against a model of the region stack
#include "vf.h"
#ifdef VF_NATIVE
#include "actor.h"
#include "caliper/Caliper.h"
#include "caliper/SnapshotRecord.h"
#include "caliper/common/Node.h"
#include "common/RuntimeConfig.h"
#include <map>
#include <set>
#include <thread>
#include <string>
#include <vector>
using namespace cali;
namespace cali { namespace internal { void init_builtin_configmanager(Caliper*) {} } void init_submodules() {} void config_sanity_check(const char*, RuntimeConfig) {} }
typedef std::pair<int, std::string> KV; typedef std::vector<KV> Path;
struct At { int prop; cali_attr_type type; Attribute a; bool proc, val, unal, events, hidden; };
static std::vector<At> g_at; static std::map<cali_id_t, int> g_idx;
struct Model { Path region, unaligned; std::map<int, std::string> vals; };
static Model g_proc;
struct Ev { int what, attr; std::string value, before; bool operator==(const Ev& o) const { return what == o.what && attr == o.attr && value == o.value && before == o.before; } };
static std::vector<Ev> g_log; static bool g_rec; static Channel g_ch, g_off;
static std::string cur(Caliper* c, const Attribute& a) { const Entry e = c->get(a); return e.empty() ? "-" : e.value().to_string(); }
static void log(int what, Caliper* c, const Attribute& a, const Variant& v) { if (g_rec && g_idx.count(a.id())) g_log.push_back({ what, g_idx[a.id()], v.to_string(), cur(c, a) }); }
static void attach(Channel& ch, int base)
{
    ch.events().pre_begin_evt.connect([base](Caliper* c, ChannelBody*, const Attribute& a, const Variant& v) { log(base + 0, c, a, v); });
    ch.events().post_begin_evt.connect([base](Caliper* c, ChannelBody*, const Attribute& a, const Variant& v) { log(base + 1, c, a, v); });
    ch.events().pre_set_evt.connect([base](Caliper* c, ChannelBody*, const Attribute& a, const Variant& v) { log(base + 2, c, a, v); });
    ch.events().pre_end_evt.connect([base](Caliper* c, ChannelBody*, const Attribute& a, const Variant& v) { log(base + 3, c, a, v); });
}
static void setup()
{
    if (!g_at.empty()) return;
    setenv("CALI_LOG_VERBOSITY", "0", 1); setenv("CALI_LOG_LOGFILE", "log.txt", 1); setenv("CALI_CONTEXTTREE_NUM_BLOCKS", "1000000", 1); setenv("CALI_CONTEXTTREE_NODES_PER_BLOCK", "64", 1); setenv("CALI_MEMORY_POOL_SIZE", "4096", 1);
    Caliper c = Caliper::instance();
    const int kinds[] = { 0, CALI_ATTR_NESTED, CALI_ATTR_UNALIGNED, CALI_ATTR_ASVALUE, CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN, CALI_ATTR_SKIP_EVENTS, CALI_ATTR_UNALIGNED | CALI_ATTR_SKIP_EVENTS, CALI_ATTR_NESTED | CALI_ATTR_AGGREGATABLE };
    for (int s = 0; s < 2; ++s) for (int k = 0; k < 8; ++k) {
        At a; a.prop = kinds[k] | (s ? CALI_ATTR_SCOPE_PROCESS : CALI_ATTR_SCOPE_THREAD); a.type = (k == 3 || k == 5) ? CALI_TYPE_INT : CALI_TYPE_STRING; if (a.prop & CALI_ATTR_ASVALUE) a.type = CALI_TYPE_INT;
        const std::string name = "at." + std::to_string(g_at.size());
        a.a = c.create_attribute(name, a.type, a.prop);
        ENSURES(a.a && a.a.name() == name && a.a.type() == a.type && a.a.properties() == a.prop && c.get_attribute(name) == a.a && c.get_attribute(a.a.id()) == a.a, "attributes have the name, type and properties they were created with, and can be looked up");
        ENSURES(c.create_attribute(name, CALI_TYPE_DOUBLE, 0) == a.a, "an attribute is only created once");
        a.proc = s; a.val = a.prop & CALI_ATTR_ASVALUE; a.unal = a.prop & CALI_ATTR_UNALIGNED; a.events = !(a.prop & CALI_ATTR_SKIP_EVENTS); a.hidden = a.prop & CALI_ATTR_HIDDEN;
        g_idx[a.a.id()] = g_at.size(); g_at.push_back(a);
    }
    g_ch = c.create_channel("on", RuntimeConfig()); c.activate_channel(g_ch); g_off = c.create_channel("off", RuntimeConfig()); attach(g_ch, 0); attach(g_off, 10);
}
static std::string innermost(const Model& m, int i) { const At& a = g_at[i]; if (a.val) return m.vals.count(i) ? m.vals.at(i) : "-"; const Path& p = a.unal ? m.unaligned : m.region; for (int k = (int) p.size() - 1; k >= 0; --k) if (p[k].first == i) return p[k].second; return "-"; }
static Variant mkval(int i, std::string& s) { const At& a = g_at[i]; const unsigned k = ND_BELOW(5); if (a.type == CALI_TYPE_INT) { s = std::to_string((int) k - 2); return Variant((int) k - 2); } static const char* names[] = { "main", "foo", "bar", "a b", "" }; s = names[k]; return Variant(CALI_TYPE_STRING, names[k], s.size()); }
static Path path(const Node* n) { Path p; for (; n && n->attribute() != CALI_INV_ID; n = n->parent()) p.insert(p.begin(), KV(g_idx.count(n->attribute()) ? g_idx[n->attribute()] : -1, n->data().to_string())); return p; }
static void check(Caliper& c, const Model& th)
{
    for (size_t i = 0; i < g_at.size(); ++i) ENSURES(cur(&c, g_at[i].a) == innermost(g_at[i].proc ? g_proc : th, i), "every attribute reads as its innermost open value");
    std::multiset<Path> want, got; const Model* ms[2] = { &th, &g_proc };
    for (const Model* m : ms) { if (!m->region.empty()) want.insert(m->region); if (!m->unaligned.empty()) want.insert(m->unaligned); for (auto& v : m->vals) if (!g_at[v.first].hidden) want.insert(Path { KV(v.first, v.second) }); }
    FixedSizeSnapshotRecord<80> rec; c.pull_context(rec.builder());
    for (const Entry& e : rec.view()) {
        if (e.is_reference()) { Path p, a = path(e.node()); for (auto& k : a) if (k.first >= 0) p.push_back(k); if (!p.empty()) got.insert(p); }
        else if (g_idx.count(e.attribute())) got.insert(Path { KV(g_idx[e.attribute()], e.value().to_string()) });
    }
    ENSURES(want == got, "a context snapshot holds exactly the open regions, in nesting order, and the set values");
}
static bool step(Caliper& c, Model& th, bool& error, int i, int op)
{
    const At& a = g_at[i]; Model& m = a.proc ? g_proc : th; Path& p = a.unal ? m.unaligned : m.region; std::string s; const Variant v = mkval(i, s); std::string before = innermost(m, i); std::vector<Ev> want;
    g_log.clear(); g_rec = true;
    if (op < 2) {   // begin
        if (!error) { if (a.events) want.push_back({ 0, i, s, before }); if (a.val) m.vals[i] = s; else p.push_back(KV(i, s)); if (a.events) want.push_back({ 1, i, s, s }); }
        c.begin(a.a, v);
    } else if (op == 2) {   // set
        if (!error) { if (a.events) want.push_back({ 2, i, s, before }); if (a.val) m.vals[i] = s; else { for (int k = (int) p.size() - 1; k >= 0; --k) if (p[k].first == i) { p.erase(p.begin() + k); break; } p.push_back(KV(i, s)); } }
        c.set(a.a, v);
    } else {   // end, with or without value check
        const bool chk = op == 4 && ND_BOOL(); bool ok = before != "-" && (a.val || a.unal || p.back().first == i);
        if (chk && before != s) ok = false;
        if (!error) { if (!ok) error = true; else { if (a.events) want.push_back({ 3, i, before, before }); if (a.val) m.vals.erase(i); else for (int k = (int) p.size() - 1; k >= 0; --k) if (p[k].first == i) { p.erase(p.begin() + k); break; } } }
        if (chk) c.end_with_value_check(a.a, v); else c.end(a.a);
    }
    g_rec = false;
    ENSURES(g_log == want, "active channels see each update exactly once, with its value, before/after it takes effect as documented");
    check(c, th); return !error;
}
static void history(unsigned ops, bool bad)
{
    setup();
    struct T { Actor a; Model th; bool error = false; }; std::vector<std::unique_ptr<T>> ts;
    const unsigned n = ND_BELOW(ops), maxt = 1 + ND_BELOW(3);
    for (unsigned k = 0; k < n; ++k) {
        if (ts.empty() || (ts.size() < maxt && ND_BELOW(15) == 0)) { ts.emplace_back(new T); T* t = ts.back().get(); t->a.run([t] { Caliper c = Caliper::instance(); check(c, t->th); }); }
        T& t = *ts[ND_BELOW(ts.size())];
        t.a.run([&] {
            Caliper c = Caliper::instance(); Model& th = t.th;
            int i = ND_BELOW(g_at.size()), op = ND_BELOW(5); Model& m = g_at[i].proc ? g_proc : th; const Path& p = g_at[i].unal ? m.unaligned : m.region;
            if (op >= 3 && !bad) { if (!g_at[i].val && !g_at[i].unal && !p.empty()) i = p.back().first; if (innermost(m, i) == "-") return; op = 3; }
            if ((g_at[i].proc ? g_proc : th).region.size() > 12 && op < 3) return;
            step(c, th, t.error, i, op);
        });
        // other threads see the process-scope state, and keep their own
        if (ND_BOOL()) { T& o = *ts[ND_BELOW(ts.size())]; o.a.run([&o] { Caliper c = Caliper::instance(); check(c, o.th); }); }
        if (ND_BELOW(40) == 0) ts.erase(ts.begin() + ND_BELOW(ts.size()));
    }
    for (auto& t : ts) t->a.run([&] { Caliper c = Caliper::instance(); if (!t->error) while (!t->th.region.empty()) step(c, t->th, t->error, t->th.region.back().first, 3); });
    ts.clear();
    std::thread([&] {   // close what the process still has open
        Caliper c = Caliper::instance(); Model th; bool error = false;
        while (!g_proc.region.empty()) step(c, th, error, g_proc.region.back().first, 3);
        while (!g_proc.unaligned.empty()) step(c, th, error, g_proc.unaligned[ND_BELOW(g_proc.unaligned.size())].first, 3);
        while (!g_proc.vals.empty()) step(c, th, error, g_proc.vals.begin()->first, 3);
        ENSURES(!error, "a stack error of one thread does not affect others");
    }).join();
    REACH("end");
}
CONTRACT(history_good) { history(120, false); }
CONTRACT(history_errors) { history(40, true); }
#else
CONTRACT(history_good) { REACH("end"); }
CONTRACT(history_errors) { REACH("end"); }
#endif

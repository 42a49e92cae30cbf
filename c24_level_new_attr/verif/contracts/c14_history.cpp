// on-line aggregation: groups snapshots by key exactly, against a reference model
#include "vf.h"
#ifdef VF_NATIVE
#include "runtime.h"
#include "services/aggregate/AggregationDB.h"
#include <cmath>
struct Kern { bool any = false; unsigned n = 0; Variant mn, mx, sum; void add(const Variant& v) { if (!any) { mn = mx = sum = v; any = true; } else { mn = v < mn ? v : mn; mx = v > mx ? v : mx; if (v.type() == CALI_TYPE_DOUBLE) sum = Variant(sum.to_double() + v.to_double()); else if (v.type() == CALI_TYPE_INT) { int64_t i = sum.to_int64() + v.to_int64(); sum = Variant(CALI_TYPE_INT, &i, 8); } else { uint64_t i = sum.to_uint() + v.to_uint(); sum = Variant(CALI_TYPE_UINT, &i, 8); } } ++n; } };
struct Group { uint64_t count = 0; std::vector<Kern> k; };
typedef std::map<std::string, Group> DB;
static std::vector<Attribute> g_key, g_val, g_ref, g_plain; static Attribute g_skip;
static void setup()
{
    rt_setup(); if (!g_key.empty()) return; Caliper c = Caliper::instance(); const int vp = CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS;
    const cali_attr_type kt[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_BOOL, CALI_TYPE_DOUBLE }, vt[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE };
    for (int i = 0; i < 4; ++i) g_key.push_back(c.create_attribute("key." + std::to_string(i), kt[i], vp));
    for (int i = 0; i < 3; ++i) g_val.push_back(c.create_attribute("val." + std::to_string(i), vt[i], vp | CALI_ATTR_AGGREGATABLE));
    for (int i = 0; i < 2; ++i) { g_ref.push_back(c.create_attribute("ref." + std::to_string(i), CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS)); g_plain.push_back(c.create_attribute("plain." + std::to_string(i), CALI_TYPE_INT, vp)); }
    g_skip = c.create_attribute("skipped.records", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
    for (auto& a : g_key) g_mine.insert(a.id()); for (auto& a : g_ref) g_mine.insert(a.id()); g_mine.insert(g_skip.id());
}
static std::string num(const Variant& v) { return std::to_string(v.type()) + ":" + v.to_string(); }
static bool near(const Variant& a, const Variant& b) { if (a.type() != b.type()) return false; if (a.type() != CALI_TYPE_DOUBLE) return a == b; const double x = a.to_double(), y = b.to_double(); return std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x) + std::fabs(y)); }
struct Push { std::vector<Entry> rec; std::string key; std::vector<Variant> vals; };
static Push make(Caliper& c, unsigned keys, unsigned refs, unsigned nref)
{
    Push p; p.vals.resize(3); std::vector<Variant> kv(4); std::string s;
    for (unsigned r = ND_BELOW(nref + 1); r > 0; --r) { Node* n = nullptr; for (unsigned d = 1 + ND_BELOW(2); d > 0; --d) { std::string v = "r" + std::to_string(ND_BELOW(refs)); n = c.make_tree_entry(g_ref[ND_BELOW(2)], Variant(CALI_TYPE_STRING, v.c_str(), v.size()), n); } p.rec.push_back(Entry(n)); s += rt_str(Entry(n)) + ";"; }
    std::vector<Entry> imm;
    for (int i = 0; i < 4; ++i) if (ND_BOOL()) { Variant v; int64_t k = ND_BELOW(keys); switch (i) { case 0: v = Variant((int) k - 2); break; case 1: v = Variant(cali_make_variant_from_uint(ND_BELOW(8) ? k : ND_U64())); break; case 2: v = Variant(k % 2 == 1); break; default: v = Variant(k / 2.0 - 1); } imm.push_back(Entry(g_key[i], v)); kv[i] = v; }
    for (int i = 0; i < 3; ++i) if (ND_BELOW(3)) { const int64_t x = ND_BOOL() ? (int64_t) ND_BELOW(40) - (i == 1 ? 0 : 20) : ND_U32() / 4; Variant v = i == 0 ? Variant(CALI_TYPE_INT, &x, 8) : i == 1 ? Variant(CALI_TYPE_UINT, &x, 8) : Variant(x / 8.0); imm.push_back(Entry(g_val[i], v)); p.vals[i] = v; }
    for (int i = 0; i < 2; ++i) if (ND_BOOL()) imm.push_back(Entry(g_plain[i], Variant((int) ND_U32())));
    while (!imm.empty()) { size_t k = ND_BELOW(imm.size()); p.rec.insert(p.rec.begin() + (ND_BOOL() ? p.rec.size() : 0), imm[k]); imm.erase(imm.begin() + k); }
    // keep only the order of the references: groups list references first, then the key values in configuration order
    s.clear(); for (auto& e : p.rec) if (e.is_reference()) s += rt_str(e) + ";";
    p.key = s; for (int i = 0; i < 4; ++i) if (!kv[i].empty()) p.key += "K" + std::to_string(i) + num(kv[i]);
    return p;
}
struct Out { std::string key; uint64_t count = 0, slot = 0; std::map<std::string, Variant> st; bool skipped = false; };
static std::vector<Out> flush(Caliper& c, Channel& ch, const std::vector<bool>& use)
{
    std::vector<Out> r; std::vector<Attribute> order; for (int i = 3; i >= 0; --i) if (use[i]) order.push_back(g_key[i]);
    c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        Out o; std::map<int, Variant> kv; bool ok = true;
        for (const Entry& e : rec) {
            if (e.is_reference()) { const std::string s = rt_str(e); if (!s.empty()) o.key += s + ";"; if (e.node()->attribute() == g_skip.id()) o.skipped = true; continue; }
            const std::string n = db.get_attribute(e.attribute()).name(); int ki = -1; for (int i = 0; i < 4; ++i) if (g_key[i].id() == e.attribute()) ki = i;
            if (ki >= 0) { ok = ok && !kv.count(ki); kv[ki] = e.value(); } else if (n == "count") o.count = e.value().to_uint(); else if (n == "aggregate.slot") o.slot = e.value().to_uint(); else { ok = ok && !o.st.count(n); o.st[n] = e.value(); }
        }
        for (auto& k : kv) o.key += "K" + std::to_string(k.first) + num(k.second);
        ENSURES(ok, "an output record has each key and result attribute at most once");
        r.push_back(o);
    });
    return r;
}
static void compare(const std::vector<Out>& out, const std::vector<DB>& dbs, const std::vector<bool>& use)
{
    std::multimap<std::string, const Group*> want; for (auto& d : dbs) for (auto& g : d) want.insert({ g.first, &g.second }); size_t n = 0;
    for (const Out& o : out) {
        ENSURES(!o.skipped, "no snapshot is skipped while there is memory");
        auto rg = want.equal_range(o.key); auto hit = want.end(); ENSURES(rg.first != rg.second, "every output record is a key that was recorded");
        for (auto it = rg.first; it != rg.second && hit == want.end(); ++it) {
            const Group& g = *it->second; bool same = g.count == o.count; size_t k = 0;
            for (int i = 0; i < 3; ++i) if (g.k[i].any) { const std::string n = g_val[i].name(); const Kern& q = g.k[i]; Variant sum = q.sum; auto f = [&](const char* w, const Variant& v) { ++k; auto p = o.st.find(w + n); return p != o.st.end() && near(p->second, v); }; const bool a = f("min#", q.mn), b = f("max#", q.mx), c = f("sum#", q.sum), d = f("avg#", sum.div(q.n)); same = same && a && b && c && d; }
            same = same && k == o.st.size(); if (same) hit = it;
        }
        ENSURES(hit != want.end(), "count, minimum, maximum, sum and average of a key are those of its snapshots");
        if (hit != want.end()) want.erase(hit); ++n;
    }
    ENSURES(want.empty(), "every recorded key is in the output");
}
static Channel channel(Caliper& c, std::vector<bool>& use)
{
    RuntimeConfig cfg; cfg.allow_read_env(false); cfg.set("CALI_SERVICES_ENABLE", "aggregate"); cfg.set("CALI_CHANNEL_FLUSH_ON_EXIT", "false"); std::string k; use.assign(4, false);
    for (int i = 3; i >= 0; --i) if (ND_BELOW(3)) { use[i] = true; k += (k.empty() ? "" : ",") + g_key[i].name(); } cfg.set("CALI_AGGREGATE_KEY", k);
    Channel ch; auto create = [&] { Caliper c = Caliper::instance(); ch = c.create_channel("agg", cfg); c.activate_channel(ch); }; if (ND_BOOL()) create(); else { Actor a; a.run(create); } return ch;
}
static std::string strip(const std::string& k, const std::vector<bool>& use) { size_t p = k.find('K'); if (p == std::string::npos) return k; std::string r = k.substr(0, p); while (p < k.size()) { size_t q = k.find('K', p + 1); if (q == std::string::npos) q = k.size(); if (use[k[p + 1] - '0']) r += k.substr(p, q - p); p = q; } return r; }
static void history(unsigned n, unsigned keys, unsigned refs)
{
    setup(); Caliper c = Caliper::instance(); std::vector<bool> use; Channel ch = channel(c, use); std::vector<DB> dbs;
    struct T { Actor a; size_t db; unsigned left; }; std::vector<std::unique_ptr<T>> ts; unsigned more = 1 + ND_BELOW(4); dbs.reserve(16);
    while (!ts.empty() || more) {
        if (more && (ts.empty() || ND_BELOW(8) == 0)) { --more; ts.emplace_back(new T); ts.back()->left = ND_BELOW(n); ts.back()->db = dbs.size(); dbs.push_back(DB()); }
        const size_t at = ND_BELOW(ts.size()); T& t = *ts[at]; if (!t.left) { ts.erase(ts.begin() + at); continue; }
        t.a.run([&] { unsigned burst = 1 + ND_BELOW(n / 8 + 2);
          for (; t.left && burst; --t.left, --burst) {
            Caliper c = Caliper::instance();
            Push p = make(c, keys, refs, 4); c.push_snapshot(ch.body(), SnapshotView(p.rec.size(), p.rec.data()));
            Group& g = dbs[t.db][strip(p.key, use)]; ++g.count; g.k.resize(3); for (int i = 0; i < 3; ++i) if (!p.vals[i].empty()) g.k[i].add(p.vals[i]);
            if (ND_BELOW(n) == 0) compare(flush(c, ch, use), dbs, use);
            if (ND_BELOW(n) == 0 || (burst == 1 && ND_BELOW(6) == 0)) { c.clear(&ch); for (auto& d : dbs) d.clear(); }
          } });
    }
    compare(flush(c, ch, use), dbs, use); compare(flush(c, ch, use), dbs, use);
    c.clear(&ch); ENSURES(flush(c, ch, use).empty(), "nothing is left after clearing");
    c.delete_channel(ch); REACH("end");
}
CONTRACT(aggregate_few) { history(60, 3, 2); }
CONTRACT(aggregate_many) { history(1500, 5, 3); }
// in a signal handler nothing may be allocated: what does not fit is counted as skipped, nothing is lost or written out of bounds
CONTRACT(aggregate_signal)
{
    setup(); Caliper ci = Caliper::instance(); std::vector<bool> use; Channel ch = channel(ci, use); uint64_t total = 0; const unsigned rounds = 1 + ND_BELOW(2);
    std::thread([&] {
        Caliper c = Caliper::instance(); c.push_snapshot(ch.body(), SnapshotView()); ++total;
        for (unsigned r = 0; r < rounds; ++r) {
            for (unsigned k = ND_BELOW(8000); k > 0; --k) { Push p = make(c, ND_BOOL() ? 4000 : 3, 2, 2); if (ND_BELOW(40)) { Caliper sc = Caliper::sigsafe_instance(); sc.push_snapshot(ch.body(), SnapshotView(p.rec.size(), p.rec.data())); } else c.push_snapshot(ch.body(), SnapshotView(p.rec.size(), p.rec.data())); ++total; }
            uint64_t got = 0, skipped = 0; std::set<std::string> seen; for (auto& o : flush(c, ch, use)) { got += o.count; if (o.skipped) { ENSURES(o.st.empty(), "skipped snapshots have no results"); ++skipped; } ENSURES(seen.insert(o.key).second, "a key has one output record"); }
            ENSURES(got == total && skipped <= 1, "every snapshot is counted in its key's record or as skipped");
            if (r + 1 < rounds) { c.clear(&ch); total = 0; ENSURES(flush(c, ch, use).empty(), "nothing is left after clearing"); }
        }
    }).join();
    ci.delete_channel(ch); REACH("end");
}
#else
CONTRACT(aggregate_few) { REACH("end"); } CONTRACT(aggregate_many) { REACH("end"); } CONTRACT(aggregate_signal) { REACH("end"); }
#endif

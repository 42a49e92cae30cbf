// trace buffers: every recorded snapshot is flushed exactly once per flush until cleared, for every overflow policy
#include "vf.h"
#ifdef VF_NATIVE
#include "runtime.h"
#include "services/trace/TraceBufferChunk.h"
static std::vector<Attribute> g_imm, g_ref; static unsigned g_ser;
static void setup()
{
    rt_setup(); if (!g_imm.empty()) return; Caliper c = Caliper::instance();
    const cali_attr_type ty[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE, CALI_TYPE_BOOL };
    for (int i = 0; i < 4; ++i) { g_imm.push_back(c.create_attribute("imm." + std::to_string(i), ty[i], CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS)); g_ref.push_back(c.create_attribute("ref." + std::to_string(i), CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS)); }
    for (auto& a : g_imm) g_mine.insert(a.id()); for (auto& a : g_ref) g_mine.insert(a.id());
}
static Entry entry(Caliper& c)
{
    const unsigned k = ND_BELOW(6);
    switch (k) {
    case 0: return Entry(g_imm[0], Variant((int) ND_U32())); case 1: return Entry(g_imm[1], Variant(cali_make_variant_from_uint(ND_BOOL() ? ND_U64() : ++g_ser)));
    case 2: return Entry(g_imm[2], Variant((double) (int) ND_U32() / 8)); case 3: return Entry(g_imm[3], Variant(ND_BOOL()));
    default: { Node* n = nullptr; static const char* s[] = { "a", "b", "main", "" }; for (unsigned d = 1 + ND_BELOW(3); d > 0; --d) n = c.make_tree_entry(g_ref[ND_BELOW(4)], Variant(CALI_TYPE_STRING, s[ND_BELOW(4)], 1), n); return Entry(n); }
    }
}
static std::vector<Entry> record(Caliper& c, unsigned max) { std::vector<Entry> r; for (unsigned n = 1 + ND_BELOW(max); n > 0; --n) r.push_back(entry(c)); return r; }
typedef std::multiset<std::string> MS;
template <class It> static std::string str(It b, It e)
{   // records of 100 consecutive numbers are abbreviated
    uint64_t first = 0, n = 0; bool run = true; for (It i = b; i != e; ++i) if (i->is_immediate() && i->attribute() == g_imm[1].id()) { const uint64_t v = i->value().to_uint(); if (n == 0) first = v; run = run && v == first - n; ++n; } else if (i->is_immediate() && g_mine.count(i->attribute())) run = false;
    return run && n == 100 ? "big:" + std::to_string(first) : rt_rec(b, e);
}
CONTRACT(chunk_history)
{
    setup(); Caliper c = Caliper::instance(); std::vector<size_t> sizes;
    auto mk = [&] { size_t s = ND_BELOW(3) ? 64 + ND_BELOW(600) : ND_BELOW(80); sizes.push_back(s); trace::TraceBufferChunk* t = new trace::TraceBufferChunk(s); return t; };
    trace::TraceBufferChunk* head = mk(); MS want; std::vector<std::vector<std::string>> order(1); bool app = ND_BOOL(); size_t n = ND_BELOW(40);
    for (size_t i = 0; i < n; ++i) {
        auto r = record(c, 12); SnapshotView v(r.size(), r.data()); const std::string s = rt_rec(r.begin(), r.end());
        if (!head->fits(v)) { trace::TraceBufferChunk* t = mk(); if (app && ND_BOOL()) { t->append(head); head = t; order.insert(order.begin(), std::vector<std::string>()); } else { head->append(t); order.push_back(std::vector<std::string>()); } }
        if (head->fits(v)) { head->save_snapshot(v); order[0].push_back(s); }
        if (ND_BELOW(20) == 0) { auto info = head->info(); size_t res = 0; for (size_t x : sizes) res += x; ENSURES(info.nchunks == sizes.size() && info.reserved == res && info.used <= res, "usage statistics add up over the chunks"); }
        if (ND_BELOW(30) == 0) { head->reset(); sizes.resize(1); sizes[0] = head->info().reserved; order.assign(1, {}); }
    }
    for (int k = 0; k < 2; ++k) {
        std::vector<std::string> got, w; size_t m = head->flush(&c, [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { got.push_back(rt_rec(r.begin(), r.end())); });
        for (auto& l : order) w.insert(w.end(), l.begin(), l.end());
        ENSURES(got == w && m == w.size(), "a chunk list gives back every stored record, in order within each chunk");
    }
    delete head; REACH("end");
}
static void service(const char* policy, const char* mib, unsigned nrec, unsigned recsize)
{
    setup(); Caliper c = Caliper::instance(); MS want, got; const std::string pol = policy;
    RuntimeConfig cfg; cfg.allow_read_env(false); cfg.set("CALI_SERVICES_ENABLE", "trace"); cfg.set("CALI_TRACE_BUFFER_POLICY", policy); cfg.set("CALI_TRACE_BUFFER_SIZE", mib); cfg.set("CALI_CHANNEL_FLUSH_ON_EXIT", "false");
    // the thread that creates the channel may finish before recording starts
    Channel ch; auto create = [&] { Caliper c = Caliper::instance(); ch = c.create_channel("trace", cfg); c.activate_channel(ch); }; if (ND_BOOL()) create(); else { Actor a; a.run(create); } bool writing = false; std::set<std::string> full;
    SnapshotFlushFn collect = [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { got.insert(str(r.begin(), r.end())); };
    ch.events().write_output_evt.connect([&](Caliper* c, ChannelBody* b, SnapshotView i) { writing = true; c->flush(b, i, collect); });
    struct T { Actor a; size_t bytes = 0, left; }; std::vector<std::unique_ptr<T>> ts; unsigned more = ND_BELOW(5); if (ND_BOOL()) { ts.emplace_back(new T); ts.back()->left = ND_BELOW(nrec); } else ++more;
    while (!ts.empty() || more) {
        if (more && (ts.empty() || ND_BELOW(nrec / 2 + 2) == 0)) { --more; ts.emplace_back(new T); ts.back()->left = ND_BELOW(nrec); }
        const size_t at = ND_BELOW(ts.size()); T& t = *ts[at]; if (!t.left) { ts.erase(ts.begin() + at); continue; }
        t.a.run([&] { unsigned burst = 1 + ND_BELOW(nrec / 8 + 2);
          for (; t.left && burst; --t.left, --burst) {
            Caliper c = Caliper::instance(); size_t& bytes = t.bytes;
            std::vector<Entry> r; if (recsize < 100) r = record(c, recsize); else for (unsigned i = 0; i < 100; ++i) r.push_back(Entry(g_imm[1], Variant(cali_make_variant_from_uint(~0ull - ++g_ser)))); const std::string s = str(r.begin(), r.end());
            c.push_snapshot(ch.body(), SnapshotView(r.size(), r.data()));
            if (pol == "stop") { full.insert(s); bytes += r.size() * 24; if (bytes < 900000) want.insert(s); }
            else if (mib[0] != '0') want.insert(s);
            if (ND_BELOW(nrec) == 0 && pol != "stop") { MS g; c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { g.insert(str(r.begin(), r.end())); }); if (!writing) ENSURES(g == want, "a flush sees every recorded snapshot once"); }
            if (ND_BELOW(nrec) == 0 || (burst == 1 && ND_BELOW(6) == 0)) { if (writing) c.flush(ch.body(), SnapshotView(), collect); c.clear(&ch); if (!writing) want.clear(); full.clear(); for (auto& x : ts) x->bytes = 0; }
          } });
    }
    c.flush(ch.body(), SnapshotView(), collect);
    if (mib[0] == '0') ENSURES(got.empty(), "nothing fits in empty buffers");
    else if (pol == "stop") { for (auto& s : got) ENSURES(full.count(s), "only recorded snapshots come back"); }
    else ENSURES(got == want, "every recorded snapshot is written exactly once");
    if (writing == false) { MS again; c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { again.insert(str(r.begin(), r.end())); }); ENSURES(again == got, "flushing does not change the buffers"); }
    c.clear(&ch); MS none; c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { none.insert(""); }); ENSURES(none.empty(), "nothing is left after clearing");
    c.delete_channel(ch); REACH("end");
}
CONTRACT(trace_small) { service(ND_BOOL() ? "grow" : ND_BOOL() ? "flush" : "stop", "1", 30, 20); }
CONTRACT(trace_grow) { service("grow", "1", 1200, 100); }
CONTRACT(trace_flush) { service("flush", "1", 1200, 100); }
CONTRACT(trace_stop) { service("stop", "1", 1200, 100); }
CONTRACT(trace_zero) { service(ND_BOOL() ? "grow" : ND_BOOL() ? "flush" : "stop", "0", 10, 20); }
#else
CONTRACT(chunk_history) { REACH("end"); } CONTRACT(trace_small) { REACH("end"); } CONTRACT(trace_grow) { REACH("end"); } CONTRACT(trace_flush) { REACH("end"); } CONTRACT(trace_stop) { REACH("end"); } CONTRACT(trace_zero) { REACH("end"); }
#endif

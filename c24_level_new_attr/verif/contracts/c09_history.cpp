// arbitrary histories through the public interface, natively on the real table
#include "tree.h"
#include "caliper/SnapshotRecord.h"
#include "caliper/Blackboard.h"
using namespace cali;
#ifdef VF_NATIVE
#include <map>
#include <set>
static void history(unsigned keys, unsigned stride, unsigned ops)
{
    static NodeBox box; Node* node = mk_node(box, 8, 8, Variant());
    auto val = [&](uint64_t v) { Entry e; e.m_node = node; e.m_value = Variant(CALI_TYPE_UINT, &v, 8); return e; };
    Blackboard* bb = new Blackboard; struct R { uint64_t v; bool vis; }; std::map<cali_id_t, R> m; uint64_t c = 0, skipped = 0;
    const unsigned base = ND_BELOW(2000), n = ND_BELOW(ops);
    for (unsigned k = 0; k < n; ++k) {
        const cali_id_t q = base + (cali_id_t) ND_BELOW(keys) * stride + ND_BELOW(3); const unsigned op = ND_BELOW(8); const int u = bb->count();
        if (op < 5) {
            const bool vis = ND_BELOW(3) > 0; const Entry prev = bb->get(q); Entry r; ++c;
            if (op == 0) { r = bb->exchange(q, val(c), vis); ENSURES(m.count(q) ? r.value().to_uint() == m[q].v : r.empty(), "exchange returns the previous value"); } else bb->set(q, val(c), vis);
            if (m.count(q)) m[q].v = c; else if (bb->num_skipped_entries() > skipped) ++skipped; else m[q] = { c, vis };
            ENSURES(bb->count() != u, "updates are counted");
        } else { bb->del(q); m.erase(q); ENSURES(bb->get(q).empty(), "a deleted key is gone"); }
        ENSURES(bb->num_skipped_entries() == skipped && (skipped == 0 || m.size() >= 900), "entries are only refused when the table is nearly full");
    }
    std::multiset<uint64_t> want, got;
    for (auto& p : m) { const Entry e = bb->get(p.first); ENSURES(!e.empty() && e.value().to_uint() == p.second.v, "every key holds its last value"); if (p.second.vis) want.insert(p.second.v); }
    static Entry out[1100]; SnapshotBuilder b(1100, out); bb->snapshot(b);
    for (const Entry& e : b.view()) got.insert(e.value().to_uint());
    ENSURES(want == got, "a snapshot holds exactly the visible entries");
    delete bb; REACH("end");
}
CONTRACT(history_colliding) { history(6, 1021, 40); }
CONTRACT(history_mixed) { history(2000, 1, 3000); }
#else
CONTRACT(history_colliding) { REACH("end"); }
CONTRACT(history_mixed) { REACH("end"); }
#endif

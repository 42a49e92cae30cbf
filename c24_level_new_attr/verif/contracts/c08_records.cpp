#include "tree.h"
#include "caliper/SnapshotRecord.h"
#include "caliper/common/CaliperMetadataAccessInterface.h"
using namespace cali;
struct Pool { NodeBox b[3]; Node* n[3]; Pool() { n[0] = mk_node(b[0], ND_U64(), 8, Variant()); n[1] = mk_node(b[1], ND_U64(), ND_U64(), nd_uint_value()); n[2] = mk_node(b[2], ND_U64(), ND_U64(), nd_uint_value()); REQUIRES(n[0]->id() != n[1]->id() && n[1]->id() != n[2]->id() && n[0]->id() != n[2]->id()); } };
static inline Entry nd_entry(Pool& p) { Entry e; e.m_node = ND_BOOL() ? nullptr : p.n[ND_BELOW(3)]; e.m_value = nd_uint_value(); return e; }
constexpr unsigned CAP = 4;
// a builder in any state: capacity <= CAP, any fill level, one guard slot behind its storage
struct State {
    Pool pool; Entry data[CAP + 1]; SnapshotBuilder b; Entry old[CAP + 1]; size_t cap, len, skip;
    State() {
        for (unsigned i = 0; i <= CAP; ++i) old[i] = data[i] = nd_entry(pool);
        cap = ND_BELOW(CAP + 1); len = ND_BELOW(CAP + 1); REQUIRES(len <= cap); skip = ND_U32();
        b = SnapshotBuilder(cap, data); b.m_len = len; b.m_skipped = skip;
    }
    void appended(const Entry* in, size_t n) {
        const size_t room = cap - len, k = n < room ? n : room;
        ENSURES(b.size() == len + k && b.capacity() == cap && b.skipped() == skip + (n - k), "entries that fit are stored, the others counted as skipped");
        for (unsigned i = 0; i <= CAP; ++i) {
            if (i >= len && i < len + k) ENSURES(same(data[i], in[i - len]), "new entries follow the old ones in order");
            else ENSURES(same(data[i], old[i]), "all other entries, and memory behind the record, are untouched");
        }
        ENSURES(b.view().size() == len + k && b.view().data() == data, "the view covers exactly the record");
    }
};
CONTRACT(append_entry) { State s; Entry e = nd_entry(s.pool); s.b.append(e); s.appended(&e, 1); REACH("end"); }
template <unsigned N> static inline void append_block() { State s; Entry in[N + 1]; for (unsigned i = 0; i < N; ++i) in[i] = nd_entry(s.pool); s.b.append(N, in); s.appended(in, N); REACH("end"); }
CONTRACT(append_block_0) { append_block<0>(); }
CONTRACT(append_block_2) { append_block<2>(); }
CONTRACT(append_block_3) { append_block<3>(); }
CONTRACT(append_view) { State s; Entry in[2]; for (unsigned i = 0; i < 2; ++i) in[i] = nd_entry(s.pool); s.b.append(SnapshotView(2, in)); s.appended(in, 2); REACH("end"); }
CONTRACT(remove_entry)
{
    State s; Entry e = nd_entry(s.pool);
    // specification of entry equality: same node (by id), and for immediate entries the same value
    bool eq[CAP]; size_t at = CAP;
    for (unsigned i = 0; i < CAP; ++i) { eq[i] = s.old[i] == e; }
    for (unsigned i = 0; i < CAP; ++i) if (i < s.len && eq[i] && at == CAP) at = i;
    s.b.remove(e);
    ENSURES(s.b.size() == (at < CAP ? s.len - 1 : s.len) && s.b.skipped() == s.skip && s.b.capacity() == s.cap, "exactly one matching entry is removed, if there is one");
    for (unsigned i = 0; i < CAP; ++i) if (i < s.b.size()) ENSURES(same(s.data[i], s.old[i >= at ? i + 1 : i]), "the remaining entries keep their order");
    REACH("end");
}
CONTRACT(fixed_record)
{
    Pool p; FixedSizeSnapshotRecord<3> r; Entry in[5];
    ENSURES(r.builder().capacity() == 3 && r.view().empty(), "a fresh record is empty");
    const size_t n = ND_BELOW(6); for (unsigned i = 0; i < 5; ++i) in[i] = nd_entry(p);
    for (unsigned i = 0; i < 5; ++i) if (i < n) r.builder().append(in[i]);
    ENSURES(r.view().size() == (n < 3 ? n : 3) && r.builder().skipped() == (n < 3 ? 0 : n - 3), "capacity is respected");
    for (unsigned i = 0; i < 3; ++i) if (i < n) ENSURES(same(r.view()[i], in[i]), "in order");
    r.reset();
    ENSURES(r.view().empty() && r.builder().skipped() == 0 && r.builder().capacity() == 3, "reset empties the record");
    REACH("end");
}
// ---- looking up attributes in entries: innermost match on the path to the root
struct Chain {
    NodeBox b[3], ab; Node *n[3], *a; Attribute attr; cali_id_t aid; unsigned depth;
    Chain() {
        for (unsigned i = 0; i < 3; ++i) n[i] = mk_node(b[i], ND_U64(), ND_BELOW(6) + 8, nd_uint_value(), i ? n[i - 1] : nullptr);
        aid = ND_BELOW(6) + 8; a = mk_node(ab, aid, Attribute::NAME_ATTR_ID, Variant());
        attr = Attribute::make_attribute(a); depth = ND_BELOW(3);
    }
};
CONTRACT(lookup_reference)
{
    Chain c; Node* leaf = c.n[c.depth]; Entry e(leaf);
    REQUIRES(leaf->attribute() != Attribute::NAME_ATTR_ID);
    for (unsigned i = 0; i < 3; ++i) REQUIRES(c.n[i]->id() > 100 && c.n[i]->attribute() != Attribute::NAME_ATTR_ID && c.aid != Attribute::NAME_ATTR_ID);
    int want = -1, cnt = 0;
    for (int i = 0; i < 3; ++i) if ((unsigned) i <= c.depth && c.n[i]->attribute() == c.aid) { want = i; ++cnt; }
    ENSURES(e.count(c.attr) == cnt, "count is the number of nodes with the attribute on the path");
    const Variant v = e.value(c.attr);
    ENSURES(want < 0 ? v.empty() : same(Entry(c.n[want]), e.get(c.attr)), "get returns the innermost node with the attribute");
    ENSURES(want < 0 ? e.get(c.attr).empty() : v == c.n[want]->data(), "value is that node's value");
    ENSURES(e.is_reference() && !e.is_immediate() && !e.empty() && e.attribute() == leaf->attribute(), "reference entries know what they are");
    REACH("end");
}
CONTRACT(lookup_immediate)
{
    NodeBox b[2]; Node* a = mk_node(b[0], ND_U64(), Attribute::NAME_ATTR_ID, Variant()); Node* o = mk_node(b[1], ND_U64(), Attribute::NAME_ATTR_ID, Variant());
    REQUIRES(a->id() != Attribute::NAME_ATTR_ID && o->id() != Attribute::NAME_ATTR_ID);
    const Variant v = nd_scalar(); Entry e(Attribute::make_attribute(a), v); const Attribute q = Attribute::make_attribute(o);
    ENSURES(e.is_immediate() && !e.is_reference() && e.attribute() == a->id(), "immediate entries know their attribute");
    ENSURES(e.count(q) == (o->id() == a->id() ? 1 : 0), "count");
    ENSURES(o->id() == a->id() ? same(e.get(q), e) && e.value(q).c_variant().value.v_uint == v.c_variant().value.v_uint : e.get(q).empty() && e.value(q).empty(), "an immediate entry answers for its own attribute only");
    REACH("end");
}
CONTRACT(view_lookup)
{
    Chain c; for (unsigned i = 0; i < 3; ++i) REQUIRES(c.n[i]->id() > 100 && c.n[i]->attribute() != Attribute::NAME_ATTR_ID);
    REQUIRES(c.aid != Attribute::NAME_ATTR_ID);
    NodeBox ob; Node* o = mk_node(ob, ND_BELOW(6) + 8, Attribute::NAME_ATTR_ID, Variant()); REQUIRES(o->id() != 8);
    Entry in[2]; bool ref[2]; unsigned d[2]; int first = -1, firstimm = -1;
    for (int i = 0; i < 2; ++i) {
        ref[i] = ND_BOOL(); d[i] = ND_BELOW(3);
        in[i] = ref[i] ? Entry(c.n[d[i]]) : Entry(Attribute::make_attribute(o), nd_uint_value());
        bool has = !ref[i] && o->id() == c.aid;
        if (has && firstimm < 0) firstimm = i;
        for (unsigned k = 0; k < 3; ++k) has |= ref[i] && k <= d[i] && c.n[k]->attribute() == c.aid;
        if (has && first < 0) first = i;
    }
    SnapshotView v(2, in);
    ENSURES(first < 0 ? v.get(c.attr).empty() : same(v.get(c.attr), in[first].get(c.attr)), "the first entry holding the attribute answers");
    const Entry imm = v.get_immediate_entry(c.attr);
    ENSURES(firstimm < 0 ? imm.empty() : same(imm, in[firstimm]), "the first immediate entry of the attribute answers");
    REACH("end");
}
// ---- packed entries
struct DB : public CaliperMetadataAccessInterface {
    Node* known; Node* node(cali_id_t id) const override { return id == known->id() ? known : nullptr; }
    Attribute get_attribute(cali_id_t) const override { return Attribute(); } Attribute get_attribute(const std::string&) const override { return Attribute(); }
    std::vector<Attribute> get_all_attributes() const override { return {}; }
    Attribute create_attribute(const std::string&, cali_attr_type, int, int, const Attribute*, const Variant*) override { return Attribute(); }
    Node* make_tree_entry(std::size_t, const Node**, Node*) override { return nullptr; }
    std::vector<Entry> get_globals() override { return {}; }
};
static inline void packed(const bool imm)
{
    NodeBox b; Node* n = mk_node(b, ND_U64(), imm ? Attribute::NAME_ATTR_ID : ND_U64(), nd_uint_value()); REQUIRES(imm || n->attribute() != Attribute::NAME_ATTR_ID);
    Entry e = imm ? Entry(Attribute::make_attribute(n), nd_scalar()) : Entry(n);
    unsigned char buf[40]; const unsigned char tail = buf[Entry::MAX_PACKED_SIZE] = ND_U8();
    const size_t len = e.pack(buf);
    ENSURES(len > 0 && len <= Entry::MAX_PACKED_SIZE && buf[Entry::MAX_PACKED_SIZE] == tail, "a packed entry stays within MAX_PACKED_SIZE");
    DB db; db.known = n; size_t inc = 7;
    Entry r = Entry::unpack(db, buf, &inc);
    ENSURES(inc == 7 + len && same(r, e), "unpacking yields the entry and consumes what was packed");
    REACH("end");
}
CONTRACT(packed_immediate) { packed(true); }
CONTRACT(packed_reference) { packed(false); }

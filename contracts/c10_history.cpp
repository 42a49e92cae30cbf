// arbitrary histories through the public interface, natively, with the block limits set through the configuration
#include "tree.h"
#ifdef VF_NATIVE
#include "caliper/MetadataTree.h"
#include <map>
#include <vector>
#include <string>
#include <set>
using namespace cali; using namespace cali::internal;
typedef std::pair<cali_id_t, std::string> KV; typedef std::vector<KV> Path;
static KV kv(const Node* n) { return KV(n->attribute(), n->data().to_string()); }
struct H {
    MetadataTree* t; Attribute at[4]; cali_attr_type ty[4]; std::map<Path, Node*> known; std::vector<Node*> nodes; bool full = false;
    Path path(const Node* n) { Path p; for (; n && n != t->root(); n = n->parent()) p.insert(p.begin(), kv(n)); return p; }
    H() {
        t = new MetadataTree; static const cali_attr_type types[] = { CALI_TYPE_STRING, CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_STRING };
        for (int i = 0; i < 4; ++i) { ty[i] = types[i]; Attribute nm = Attribute::make_attribute(t->node(8)); std::string as = "attr" + std::to_string(i); Variant v(as.c_str()); Node* n = t->get_child(nm, v, t->type_node(types[i])); ENSURES(n && n->data() == v, "attribute node"); at[i] = Attribute::make_attribute(n); ENSURES(at[i].type() == types[i], "attribute"); }
    }
    ~H() { delete t; MetadataTree::release(); }
    std::string store[400]; 
    Variant val(int a, unsigned k) { std::string& s = store[ND_BELOW(400)]; if (ty[a] == CALI_TYPE_STRING) { s = std::string(k % 5 == 0 ? 7 + k % 24 : k % 3, 'x') + std::to_string(k); return Variant(CALI_TYPE_STRING, s.data(), s.size()); } return ty[a] == CALI_TYPE_INT ? cali_make_variant_from_int(-(int) k) : cali_make_variant_from_uint(k); }
    void got(Node* r, const Path& want, bool small) {
        if (!r) { ENSURES(small, "a node is only refused when the tree is out of space"); full = true; return; }
        ENSURES(path(r) == want, "the resulting path is the requested one");
        for (Node* n = r; n != t->root(); n = n->parent()) {
            const Path p = path(n); auto it = known.find(p);
            if (it != known.end()) ENSURES(it->second == n, "the same path is always the same node"); else { known[p] = n; nodes.push_back(n); }
            ENSURES(t->node(n->id()) == n, "a node can be found by its id");
        }
    }
    void run(unsigned ops, unsigned vals, unsigned longpath, bool small) {
        for (unsigned k = 0; k < ops; ++k) {
            Node* p = nodes.empty() || ND_BELOW(6) == 0 ? nullptr : nodes[ND_BELOW(nodes.size())]; Path pp = p ? path(p) : Path(); const int a = ND_BELOW(4); const unsigned op = ND_BELOW(6);
            if (pp.size() > 12) { p = nullptr; pp.clear(); }
            auto drop = [&](bool all) { for (int i = (int) pp.size() - 1; i >= 0; --i) if (pp[i].first == at[a].id()) { pp.erase(pp.begin() + i); if (!all) break; } };
            auto add = [&](const Variant& v) { pp.push_back(KV(at[a].id(), v.to_string())); };
            if (op == 0) { Variant v = val(a, ND_BELOW(vals)); add(v); got(t->get_child(at[a], v, p), pp, small); }
            else if (op == 1 || op == 2) {
                const unsigned n = op == 1 && ND_BELOW(40) == 0 ? ND_BELOW(longpath) : ND_BELOW(4); if (n == 0 && !p) continue; std::vector<Variant> d; std::vector<std::string> st(n);
                for (unsigned i = 0; i < n; ++i) { const unsigned x = ND_BELOW(vals); if (ty[a] == CALI_TYPE_STRING) { st[i] = std::string(x % 20, 'y') + std::to_string(x); d.push_back(Variant(CALI_TYPE_STRING, st[i].data(), st[i].size())); } else d.push_back(val(a, x)); }
                if (op == 2) drop(true); for (auto& v : d) add(v);
                if (n == 0 && pp.empty()) continue;
                got(op == 1 ? t->get_path(at[a], n, d.data(), p) : t->replace_all_in_path(p, at[a], n, d.data()), pp, small);
            }
            else if (op == 3) { if (!p) continue; drop(false); Node* r = t->remove_first_in_path(p, at[a]); if (pp.empty()) ENSURES(r == t->root() , "nothing left"); else got(r, pp, small); }
            else if (op == 4) { drop(false); Variant v = val(a, ND_BELOW(vals)); add(v); got(t->replace_first_in_path(p, at[a], v), pp, small); }
            else {
                const Node* list[3]; unsigned n = 0; for (; n < 3; ++n) { list[n] = nodes.empty() || ND_BELOW(5) == 0 ? nullptr : nodes[ND_BELOW(nodes.size())]; if (list[n]) pp.push_back(kv(list[n])); }
                if (pp.empty()) continue;
                got(t->get_path(n, list, p), pp, small);
            }
        }
        std::set<cali_id_t> ids; for (auto& k : known) { ENSURES(k.second && path(k.second) == k.first && ids.insert(k.second->id()).second, "every node keeps its place, value and own id"); }
        for (auto& k : known) { std::set<KV> c; for (Node* n = k.second->first_child(); n; n = n->next_sibling()) ENSURES(n->parent() == k.second && c.insert(kv(n)).second, "no node has two equal children"); }
    }
};
CONTRACT(history_small) { setenv("CALI_CONTEXTTREE_NODES_PER_BLOCK", "16", 1); setenv("CALI_CONTEXTTREE_NUM_BLOCKS", "12", 1); H* h = new H; h->run(ND_BELOW(120), 6, 30, true); delete h; REACH("end"); }
CONTRACT(history_large) { H* h = new H; h->run(ND_BELOW(400), 1 + ND_BELOW(40), 700, false); delete h; REACH("end"); }
CONTRACT(memory_exhausted)
{
    setenv("CALI_MEMORY_POOL_SIZE", "65536", 1); setenv("CALI_MEMORY_CAN_EXPAND", "false", 1); setenv("CALI_CONTEXTTREE_NODES_PER_BLOCK", "128", 1);
    H* h = new H; for (int k = 0; k < 60; ++k) { std::string s(ND_BELOW(3000), 'a' + k % 20); s += std::to_string(k); Variant v(CALI_TYPE_STRING, s.data(), s.size()); Path p { KV(h->at[0].id(), s) };
        h->got(ND_BOOL() ? h->t->get_child(h->at[0], v, nullptr) : h->t->get_path(h->at[0], 1, &v, nullptr), p, true); }
    for (auto& k : h->known) ENSURES(h->path(k.second) == k.first, "every node keeps its value");
    delete h; REACH("end");
}
#else
CONTRACT(history_small) { REACH("end"); }
CONTRACT(history_large) { REACH("end"); }
CONTRACT(memory_exhausted) { REACH("end"); }
#endif

// a configuration string sets up exactly the measurement channels and options it names
#include "vf.h"
#ifdef VF_NATIVE
#include "runtime.h"
#include "services/Services.h"
#include "caliper/ChannelController.h"
#include "caliper/ConfigManager.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
namespace cali {
const ConfigManager::ConfigInfo* builtin_controllers_table[] = { nullptr };
extern const char *builtin_base_option_specs, *builtin_gotcha_option_specs, *builtin_libdw_option_specs, *builtin_mpi_option_specs, *builtin_openmp_option_specs, *builtin_cuda_option_specs, *builtin_rocm_option_specs, *builtin_pcp_option_specs, *builtin_umpire_option_specs, *builtin_kokkos_option_specs, *builtin_papi_topdown_option_specs, *builtin_perf_topdown_option_specs;
const char *builtin_base_option_specs = "[]", *builtin_gotcha_option_specs = "[]", *builtin_libdw_option_specs = "[]", *builtin_mpi_option_specs = "[]", *builtin_openmp_option_specs = "[]", *builtin_cuda_option_specs = "[]", *builtin_rocm_option_specs = "[]", *builtin_pcp_option_specs = "[]", *builtin_umpire_option_specs = "[]", *builtin_kokkos_option_specs = "[]", *builtin_papi_topdown_option_specs = "[]", *builtin_perf_topdown_option_specs = "[]";
void add_submodule_controllers_and_services() { services::add_default_service_specs(); }
}
typedef std::map<std::string, std::string> Map; typedef std::vector<std::string> Words; typedef std::set<std::string> Set;
static std::string quoted(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + '"'; }
static std::string word(const std::string& s) { bool sp = s.empty(); for (char c : s) sp = sp || isspace((unsigned char) c) || strchr(",=()\"\\", c); if (!sp && ND_BELOW(3)) return s; if (ND_BOOL() || s.empty()) return quoted(s); std::string r; for (char c : s) { if (isspace((unsigned char) c) || strchr(",=()\"\\", c)) r += '\\'; r += c; } return r; }
static std::string ws() { static const char* w[] = { "", "", " ", "  ", "\t" }; return w[ND_BELOW(5)]; }
static std::string value() { static const char* v[] = { "42", "stdout", "a b", "x,y", "f(x)", "k=v", "\"q\"", "C:\\x", "%n%.cali", "{}", "out.json", "select *" }; return v[ND_BELOW(12)]; }
static const char* const SRV[] = { "event", "srv_a", "srv_b", "srv_c" };
struct Opt { std::string name, type, cat; Set srv; Words inh; Map cfg; std::string query; };
struct Cfg { std::string name, alias; Set cats, srv; Map cfg; std::vector<Opt> opts; Map defs; bool custom, avail = true; };
template <class C> static std::string jlist(const C& c) { std::string t = "["; for (auto& s : c) t += (t.size() > 1 ? "," : "") + ws() + quoted(s) + ws(); return t + "]"; }
static std::string jdict(const Map& m) { std::string t = "{"; for (auto& p : m) t += (t.size() > 1 ? "," : "") + ws() + quoted(p.first) + ws() + ":" + ws() + quoted(p.second) + ws(); return t + "}"; }
static std::string jobj(Words f) { for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[ND_BELOW(i)]); std::string t = "{" + ws(); for (size_t i = 0; i < f.size(); ++i) t += (i ? "," : "") + ws() + f[i] + ws(); return t + "}"; }
static std::string jopt(const Opt& o) { Words f { "\"name\": " + quoted(o.name), "\"type\": " + quoted(o.type), "\"description\": \"about, {it}: [x]\"" }; if (!o.cat.empty()) f.push_back("\"category\": " + quoted(o.cat)); if (!o.srv.empty() || ND_BOOL()) f.push_back("\"services\": " + jlist(o.srv)); if (!o.inh.empty()) f.push_back("\"inherit\": " + jlist(o.inh)); if (!o.cfg.empty() || ND_BELOW(3) == 0) f.push_back("\"config\": " + jdict(o.cfg)); if (!o.query.empty()) f.push_back("\"query\": " + jdict(Map { { "local", o.query } })); return jobj(f); }
static std::string jcfg(const Cfg& c) { Words f { "\"name\": " + quoted(c.name), "\"description\" : \"what; it does\"" }; if (!c.alias.empty()) f.push_back("\"alias\": " + jlist(Words { c.alias })); if (!c.cats.empty() || ND_BOOL()) f.push_back("\"categories\": " + jlist(c.cats)); if (!c.srv.empty()) f.push_back("\"services\":" + jlist(c.srv)); f.push_back("\"config\" : " + jdict(c.cfg)); if (!c.opts.empty()) { std::string t = "["; for (auto& o : c.opts) t += (t.size() > 1 ? "," : "") + ws() + jopt(o); f.push_back("\"options\": " + t + "]"); } if (!c.defs.empty()) f.push_back("\"defaults\": " + jdict(c.defs)); return jobj(f); }
static ConfigManager::Options* g_opts; static std::vector<std::unique_ptr<ConfigManager::Options>> g_seen;
struct Ctl : ChannelController {
    Ctl(const char* n, const config_map_t& m, const ConfigManager::Options& o) : ChannelController(n, 0, m) { g_seen.emplace_back(new ConfigManager::Options(o)); o.update_channel_config(config()); o.update_channel_metadata(metadata()); }
    static ChannelController* make(const char* n, const config_map_t& m, const ConfigManager::Options& o) { return new Ctl(n, m, o); }
    const info_map_t& info() { return metadata(); }
};
static std::string forbid(const ConfigManager::Options& o) { return o.get("optS") == "forbidden" ? "forbidden" : ""; }
static unsigned g_ser;
static std::vector<Opt> options(const std::string& prefix, const std::vector<std::string>& cats, bool bad)
{
    std::vector<Opt> v; for (unsigned n = ND_BELOW(5), i = 0; i < n; ++i) { static const char* ty[] = { "bool", "bool", "string", "int" }; Opt o; static const char* nm[] = { "a", "b.c", "d-e", "out", "p_q" }; o.name = prefix + nm[i]; o.type = ty[ND_BELOW(4)]; if (!cats.empty()) o.cat = cats[ND_BELOW(cats.size())];
        for (int s = 1; s < 4; ++s) if (ND_BELOW(4) == 0) o.srv.insert(SRV[s]); if (bad && ND_BELOW(8) == 0) o.srv.insert("nosuch_srv"); for (auto& p : v) if (ND_BELOW(4) == 0 && (p.cat == o.cat || o.cat.empty())) o.inh.push_back(p.name);
        for (unsigned k = ND_BELOW(3); k > 0; --k) { static const char* t[] = { "v", "x{}y", "{}", "{}-{}", "no" }; o.cfg["CALI_" + o.name + std::to_string(k)] = t[ND_BELOW(5)]; } if (ND_BELOW(3) == 0) o.query = "<" + o.name + (ND_BOOL() ? ":{}>" : ">"); v.push_back(o); }
    return v;
}
static std::string subst(const std::string& t, const std::string& v) { std::string r; for (size_t i = 0; i < t.size(); ++i) if (t.compare(i, 2, "{}") == 0) { r += v; ++i; } else r += t[i]; return r; }
static bool tobool(const std::string& s) { return s == "true" || s == "t" || s == "1"; }
static std::string bval(bool bad) { static const char* b[] = { "true", "false", "0", "1", "t", "f" }; return bad ? "bla" : b[ND_BELOW(6)]; }
CONTRACT(config_string)
{
    rt_setup(); static bool once = false; if (!once) { once = true; static const CaliperService l[] = { { "event", [](Caliper*, Channel*) {} }, { "srv_a", [](Caliper*, Channel*) {} }, { "srv_b", [](Caliper*, Channel*) {} }, { "srv_c", [](Caliper*, Channel*) {} }, { nullptr, nullptr } }; services::add_service_specs(l); }
    ConfigManager mgr; const Words cats { "cat1", "cat 2" }; std::vector<Opt> glob = options("g.", cats, true); std::vector<Cfg> cfgs; std::map<std::string, int> idx;
    for (unsigned n = 1 + ND_BELOW(3), i = 0; i < n; ++i) { static const char* nm[] = { "conf-a", "conf.b", "my conf" }; Cfg c; c.name = nm[i]; if (ND_BELOW(3) == 0) c.alias = "alias" + std::to_string(i); for (auto& s : cats) if (ND_BOOL()) c.cats.insert(s); for (auto s : SRV) if (ND_BELOW(3) == 0) c.srv.insert(s); if (ND_BELOW(10) == 0) { c.srv.insert("nosuch_srv"); c.avail = false; } for (unsigned k = ND_BELOW(3); k > 0; --k) c.cfg["CALI_CFG_" + std::to_string(k)] = value(); c.opts = options(std::string(1, 'l' + ND_BELOW(2)) + ".", {}, true); if (ND_BELOW(3) == 0) { Opt o; o.name = "optS"; o.type = "string"; c.opts.push_back(o); } c.custom = true; cfgs.push_back(c); }
    // the options each configuration knows
    auto known = [&](const Cfg& c) { std::vector<Opt> v = c.opts; for (auto& o : glob) if (c.cats.count(o.cat)) v.push_back(o); return v; };
    auto find = [](const std::vector<Opt>& v, const std::string& n) -> const Opt* { for (auto& o : v) if (o.name == n) return &o; return nullptr; };
    for (auto& c : cfgs) for (auto& o : known(c)) if (ND_BELOW(6) == 0) c.defs[o.name] = o.type == "bool" ? bval(false) : value();
    if (ND_BOOL()) { std::string t = "["; for (auto& o : glob) t += (t.size() > 1 ? "," : "") + ws() + jopt(o); mgr.add_option_spec((t + "]").c_str()); } else { std::string t = "["; for (auto& o : glob) t += (t.size() > 1 ? ", " : "") + jopt(o); const std::string fn = "c26." + std::to_string(getpid()) + ".json"; { std::ofstream os(fn.c_str()); os << "{ \"options\": " << t << "] }"; } if (ND_BOOL()) mgr.load(fn.c_str()); else mgr.add(("load(" + fn + ")").c_str()); unlink(fn.c_str()); }
    ENSURES(!mgr.error(), "valid option specs are accepted");
    for (auto& c : cfgs) { const std::string j = jcfg(c); mgr.add_config_spec(ConfigManager::ConfigInfo { j.c_str(), Ctl::make, forbid }); if (getenv("VFD") && mgr.error()) fprintf(stderr, "%s\n%s\n", j.c_str(), mgr.error_msg().c_str()); ENSURES(!mgr.error(), "valid config specs are accepted"); if (c.avail) { idx[c.name] = &c - cfgs.data(); if (!c.alias.empty()) idx[c.alias] = &c - cfgs.data(); } }
    { auto av = mgr.available_config_specs(); Set s(av.begin(), av.end()), w; for (auto& p : idx) w.insert(p.first); ENSURES(s == w, "the configs whose services are there are available"); }
    Map all; std::map<int, Map> per; auto isopt = [&](const std::string& n) { if (find(glob, n)) return true; for (auto& p : idx) if (find(cfgs[p.second].opts, n)) return true; return false; };
    auto someopt = [&]() -> std::string { std::vector<std::string> v; for (auto& o : glob) v.push_back(o.name); for (auto& c : cfgs) for (auto& o : c.opts) v.push_back(o.name); return v.empty() ? "" : v[ND_BELOW(v.size())]; };
    auto type = [&](const std::string& n) { std::string t = "bool"; const Opt* o = find(glob, n); if (o) return o->type; for (auto& c : cfgs) if ((o = find(c.opts, n)) && o->type != "bool") t = o->type; for (auto& c : cfgs) if ((o = find(c.opts, n)) && o->type == "bool") t = "bool"; return t; };
    for (unsigned n = ND_BELOW(3); n > 0; --n) { const std::string o = someopt(); if (o.empty()) break; const std::string v = type(o) == "bool" ? bval(ND_BELOW(20) == 0) : value(); if (ND_BOOL()) { if (!all.count(o)) { all[o] = v; mgr.set_default_parameter(o.c_str(), v.c_str()); } } else { const int i = ND_BELOW(cfgs.size()); if (!per[i].count(o)) { per[i][o] = v; mgr.set_default_parameter_for_config(cfgs[i].name.c_str(), o.c_str(), v.c_str()); } } }
    size_t have = 0; bool broken = false;
    for (int round = 0; round < 2 && !broken; ++round) {
        struct Inst { int cfg; Map args, md; std::vector<Map> mdl; }; std::vector<Inst> want; Map extra, gmd; std::string text; bool err = false; Words items; const bool ex = ND_BOOL();
        auto md = [&](Map& m) { std::string t; for (unsigned n = 1 + ND_BELOW(2); n > 0; --n) { static const char* k[] = { "run", "user name", "x.y" }; static const char* v[] = { "1", "a b", "x,y", "q" }; std::string kk = k[ND_BELOW(3)], vv = v[ND_BELOW(4)]; if (m.count(kk)) continue; m[kk] = vv; t += (t.empty() ? "" : ",") + ws() + quoted(kk) + ws() + "=" + ws() + quoted(vv) + ws(); } return "metadata" + ws() + "(" + t + ")"; };
        for (unsigned n = ND_BELOW(4); n > 0; --n) switch (ND_BELOW(8)) {
            case 0: { const std::string o = someopt(); if (o.empty() || all.count(o) || !isopt(o)) break; const bool b = type(o) == "bool"; std::string v; if (b && ND_BOOL()) { v = "true"; items.push_back(word(o)); } else { v = b ? bval(ND_BELOW(20) == 0) : value(); items.push_back(word(o) + ws() + "=" + ws() + word(v)); } all[o] = v; break; }
            case 1: { static const char* k[] = { "foo", "unknown.key", "conf", "b c" }; const std::string kk = k[ND_BELOW(4)]; if (extra.count(kk)) break; std::string v; if (ND_BOOL()) v = value(); items.push_back(word(kk) + (v.empty() ? "" : ws() + "=" + ws() + word(v))); extra[kk] = v; break; }
            case 2: { if (!gmd.empty() || round) break; items.push_back(md(gmd)); break; }
            default: { if (idx.empty()) break; auto it = idx.begin(); std::advance(it, ND_BELOW(idx.size())); Inst x; x.cfg = it->second; const Cfg& c = cfgs[x.cfg]; std::string t = word(it->first); auto ks = known(c); Words as;
                for (auto& o : ks) if (ND_BELOW(3) == 0) { const bool b = o.type == "bool"; std::string v; switch (ND_BELOW(3)) { case 0: v = "true"; as.push_back(word(o.name)); break; case 1: v = b ? bval(ND_BELOW(20) == 0) : o.name == "optS" && ND_BOOL() ? "forbidden" : value(); as.push_back(word(o.name) + ws() + "=" + ws() + word(v)); break; default: v = b ? bval(false) : ND_BOOL() ? "x=1,y=(2)" : "a \"b)\" c"; as.push_back(word(o.name) + ws() + "(" + v + ")"); } x.args[o.name] = v; }
                if (ND_BELOW(5) == 0) as.push_back(md(x.md)); if (ND_BELOW(16) == 0) { static const char* e[] = { "nosuch_opt", "nosuch=1", "optS=" }; const unsigned k = ND_BELOW(3); if (k < 2 || find(ks, "optS")) { if (k == 2) { Words o; for (auto& a : as) if (a.find("optS") == std::string::npos) o.push_back(a); as = o; } as.push_back(e[k]); err = true; } }
                for (size_t i = as.size(); i > 1; --i) std::swap(as[i - 1], as[ND_BELOW(i)]); if (!as.empty() || ND_BELOW(4) == 0) { t += ws() + "("; for (size_t i = 0; i < as.size(); ++i) t += (i ? "," : "") + ws() + as[i] + ws(); t += ")"; if (ND_BELOW(30) == 0) { t.pop_back(); err = true; items.push_back(t); n = 1; break; } } items.push_back(t); want.push_back(x); } }
        bool unclosed = err && !items.empty(); (void) unclosed; for (size_t i = 0; i < items.size(); ++i) text += (i ? "," : "") + ws() + items[i] + ws();
        // options given for all, for a config, and its defaults
        std::vector<Map> eff; for (auto& x : want) { Map a = x.args; for (auto& p : per[x.cfg]) a.insert(p); for (auto& p : all) a.insert(p); for (auto& p : cfgs[x.cfg].defs) a.insert(p); eff.push_back(a);
            for (auto& p : a) { const Opt* o = find(known(cfgs[x.cfg]), p.first) ? &glob[0] : nullptr; if (!o) continue; auto ks = known(cfgs[x.cfg]); if (find(ks, p.first)->type == "bool" && p.second != "true" && p.second != "false" && p.second != "0" && p.second != "1" && p.second != "t" && p.second != "f") err = true; } if (a.count("optS") && a["optS"] == "forbidden") err = true; }
        std::vector<Set> ens; for (size_t i = 0; i < want.size(); ++i) { auto ks = known(cfgs[want[i].cfg]); Set en; std::function<void(const std::string&)> add = [&](const std::string& n) { en.insert(n); if (const Opt* o = find(ks, n)) for (auto& h : o->inh) add(h); }; for (auto& p : eff[i]) { const Opt* o = find(ks, p.first); if (o && (o->type != "bool" || tobool(p.second))) add(p.first); } Set e2; for (auto& n : en) if (const Opt* o = find(ks, n)) { e2.insert(n); if (o->srv.count("nosuch_srv")) err = true; } ens.push_back(e2); }
        if (!ex && !extra.empty()) err = true;
        g_seen.clear(); ConfigManager::argmap_t got; const std::string chk = mgr.check(text.c_str(), ex); ENSURES(g_seen.empty() && mgr.get_all_channels().size() == have && !mgr.error(), "checking a config string changes nothing"); bool ok = ex ? mgr.add(text.c_str(), got) : mgr.add(text.c_str());
        if (getenv("VFD")) { fprintf(stderr, "[%s] ok %d want %d chk [%s] msg [%s] ex %d\n", text.c_str(), ok, !err, chk.c_str(), mgr.error_msg().c_str(), ex); for (auto& c : cfgs) fprintf(stderr, "  %s\n", jcfg(c).c_str()); for (auto& o : glob) fprintf(stderr, "  g %s\n", jopt(o).c_str()); for (auto& p : all) fprintf(stderr, "  all %s=%s\n", p.first.c_str(), p.second.c_str()); }
        ENSURES(ok == !err && mgr.error() == err && mgr.error_msg().empty() == !err, "a config string is accepted if and only if it is valid"); ENSURES(chk.empty() == !err, "check reports the errors that add reports"); if (err) { broken = true; break; }
        if (ex) { Map g(got.begin(), got.end()); ENSURES(g == extra, "unknown settings are given back"); if (!extra.empty()) broken = true; }
        auto chn = mgr.get_all_channels(); ENSURES(chn.size() == have + want.size() && g_seen.size() == want.size(), "there is one channel for each config named");
        for (size_t i = 0; i < want.size(); ++i) {
            const Cfg& c = cfgs[want[i].cfg]; Ctl* ctl = static_cast<Ctl*>(chn[have + i].get()); const ConfigManager::Options& o = *g_seen[i]; auto ks = known(c); ENSURES(ctl->name() == c.name, "channels have their config's name, in order"); Set srv = c.srv; Map m = c.cfg; std::multiset<std::string> q; Set eb;
            for (auto& k : ks) { const bool set = eff[i].count(k.name), en = ens[i].count(k.name); ENSURES(o.is_set(k.name.c_str()) == set, "an option is set if it is given or has a default"); ENSURES(o.get(k.name.c_str(), "dflt") == (set ? eff[i][k.name] : "dflt"), "an option has the most specific value given for it"); ENSURES(o.is_enabled(k.name.c_str()) == en, "options are enabled by their value or by options that inherit them"); if (en) { srv.insert(k.srv.begin(), k.srv.end()); for (auto& p : k.cfg) m[p.first] = set ? subst(p.second, eff[i][k.name]) : p.second; if (!k.query.empty()) q.insert(subst(k.query, set ? eff[i][k.name] : "")); if (k.type == "bool") eb.insert(k.name); } }
            std::string sl; for (auto& s : srv) sl += (sl.empty() ? "" : ",") + s; m["CALI_SERVICES_ENABLE"] = sl; auto cm = ctl->copy_config(); ENSURES(Map(cm.begin(), cm.end()) == m, "the channel configuration has the config's and its enabled options' services and variables");
            auto eo = o.enabled_options(); ENSURES(eo.size() == eb.size() && Set(eo.begin(), eo.end()) == eb, "the enabled boolean options are listed once each");
            std::string query = o.build_query("local", "BASE"), base = query.substr(0, 4); size_t total = 4; for (auto& s : q) { total += 1 + s.size(); ENSURES(query.find(" " + s) != std::string::npos, "a query has the terms of each enabled option"); } ENSURES(base == "BASE" && query.size() == total && o.build_query("cross", "B") == "B", "a query has the terms of each enabled option");
            Map md = gmd; for (auto& p : want[i].md) md[p.first] = p.second; for (auto& p : want[i].md) if (gmd.count(p.first)) md.erase(p.first); for (auto& p : md) { auto it = ctl->info().find(p.first); ENSURES(it != ctl->info().end() && it->second == p.second, "channels have the metadata given for them"); } for (auto& k : ks) if (eff[i].count(k.name)) ENSURES(ctl->info().count("opts:" + k.name) && ctl->info().at("opts:" + k.name) == eff[i][k.name], "channels record their options");
            ENSURES(!ctl->is_instantiated() && !ctl->is_active(), "channels start inactive");
        }
        have = chn.size(); gmd.clear(); if (!text.empty() && text.find("metadata") != std::string::npos) broken = true;
    }
    // the channels run until stopped
    auto chn = mgr.get_all_channels(); if (!mgr.error() && !chn.empty() && ND_BOOL()) { for (auto& p : chn) p->config()["CALI_SERVICES_ENABLE"] = "", p->config()["CALI_CHANNEL_CONFIG_CHECK"] = "false"; mgr.start(); for (auto& p : chn) ENSURES(p->is_active() && p->is_instantiated() && p->channel().name() == p->name(), "started channels are active"); mgr.stop(); for (auto& p : chn) ENSURES(!p->is_active() && p->is_instantiated(), "stopped channels are not active"); chn[0]->start(); ENSURES(chn[0]->is_active(), "a stopped channel can be started again"); }
    REACH("end");
}
#else
CONTRACT(config_string) { REACH("end"); }
#endif

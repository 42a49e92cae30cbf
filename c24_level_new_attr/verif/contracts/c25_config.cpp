// configuration variables take the value of the documented source, and convert to what their text says
#include "vf.h"
#ifdef VF_NATIVE
#include "common/RuntimeConfig.h"
#include "common/StringConverter.h"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
using namespace cali;
typedef std::map<std::string, std::string> Map; typedef std::vector<std::string> Words;
static std::string quoted(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + '"'; }
static std::string value() { static const char* v[] = { "1", "true", "event,trace", "a b", "x=y", "\"q\"", "#1", "C:\\x", "select a, b format tree", "[p]", "-", "%mpi.rank%.cali" }; if (ND_BELOW(3)) return v[ND_BELOW(12)]; std::string s; static const char al[] = "ab ,\"\\=#()[]{}:."; for (unsigned n = 1 + ND_BELOW(8); n > 0; --n) s += al[ND_BELOW(16)]; return s; }
// a value in one of its spellings in a file or list
static std::string spell(const std::string& s, const char* sep)
{
    bool sp = s.empty(); for (char c : s) sp = sp || isspace((unsigned char) c) || strchr("\"\\", c) || strchr(sep, c); if (!sp && ND_BELOW(3)) return s; if (ND_BOOL()) return quoted(s);
    std::string r; for (char c : s) { if (isspace((unsigned char) c) || strchr("\"\\", c) || strchr(sep, c)) r += '\\'; r += c; } return r.empty() ? "\"\"" : r;
}
static const char* const SETS[] = { "tst", "Svc", "x" }; static const char* const KEYS[] = { "key", "other_key", "n", "Mixed" };
static std::string var(int s, int k) { std::string v = std::string("CALI_") + SETS[s] + "_" + KEYS[k]; for (char& c : v) c = toupper(c); return v; }
static std::string setting() { return ND_BELOW(6) ? value() : std::string(); }
static std::string rvar() { return var(ND_BELOW(3), ND_BELOW(4)); }
CONTRACT(precedence)
{
    static const char* const profs[] = { "p1", "my profile", "default", "p.2" }; unsetenv("CALI_CONFIG_FILE"); unsetenv("CALI_CONFIG_PROFILE"); for (int s = 0; s < 3; ++s) for (int k = 0; k < 4; ++k) unsetenv(var(s, k).c_str());
    RuntimeConfig cfg; bool env = true; if (ND_BELOW(3) == 0) { env = false; cfg.allow_read_env(false); } ENSURES(cfg.allow_read_env() == env, "the environment is read unless disabled");
    Map pre, top, ev; std::map<std::string, Map> prof; for (unsigned n = ND_BELOW(4); n > 0; --n) { std::string v = rvar(); pre[v] = setting(); } for (unsigned n = ND_BELOW(4); n > 0; --n) { std::string v = rvar(); top[v] = setting(); } for (unsigned n = ND_BELOW(4); n > 0; --n) { std::string v = rvar(); ev[v] = setting(); }
    // configuration files
    Words files; std::string filelist, selected; bool sel_in_file = ND_BELOW(3) == 0; auto plist = [&](Words& w) { std::string t; for (unsigned n = 1 + ND_BELOW(3); n > 0; --n) { w.push_back(profs[ND_BELOW(4)]); t += (t.empty() ? "" : ",") + spell(w.back(), ",:"); } return t; };
    Words sel; const unsigned how = ND_BELOW(5); std::string seltext; if (how) seltext = plist(sel); else sel.push_back("default");
    for (unsigned n = ND_BELOW(3), i = 0; i < n; ++i) {
        const std::string fn = "c25." + std::to_string(getpid()) + "." + std::to_string(i) + (ND_BOOL() ? ".config" : " x,y"); files.push_back(fn); filelist += (i ? "," : "") + spell(fn, ",:"); std::ofstream os(fn.c_str()); const char* nl = ND_BELOW(5) ? "\n" : "\r\n"; std::string cur = "default";
        for (unsigned m = ND_BELOW(10); m > 0; --m) switch (ND_BELOW(7)) {
            case 0: { static const char* c[] = { "# a comment", "#", "", "# x=1", "not an entry", "# [ open", "#CALI_TST_KEY=no" }; os << c[ND_BELOW(7)] << nl; break; }
            case 1: cur = profs[ND_BELOW(4)]; os << (ND_BOOL() ? "# [" : "#[") << cur << "]" << (ND_BOOL() ? " with text" : "") << nl; break;
            default: { const std::string v = rvar(), x = setting(); os << v << "=" << (ND_BELOW(4) ? "" : "  ") << spell(x, "") << (ND_BELOW(4) ? "" : " ") << nl; prof[cur][v] = x; } }
        if (how == 4 && i == 0) { os << "# [default]" << nl << "CALI_CONFIG_PROFILE=" << quoted(seltext) << nl; prof["default"]["CALI_CONFIG_PROFILE"] = seltext; }
        if (ND_BOOL()) os << "# end";
    }
    if (how == 4 && files.empty()) { sel.assign(1, "default"); seltext.clear(); }
    if (files.empty()) { filelist = "nosuch.config"; }
    for (auto& p : pre) cfg.preset(p.first.c_str(), p.second); if (ND_BOOL()) { Map a; for (auto& p : top) if (ND_BOOL()) a[p.first] = p.second; else cfg.set(p.first.c_str(), p.second); cfg.import(a); } else for (auto& p : top) cfg.set(p.first.c_str(), p.second); for (auto& p : ev) setenv(p.first.c_str(), p.second.c_str(), 1);
    // the list of files and the selected profiles are settings, too
    switch (env ? ND_BELOW(3) : ND_BELOW(2)) { case 0: cfg.set("CALI_CONFIG_FILE", filelist); break; case 1: cfg.preset("CALI_CONFIG_FILE", filelist); break; default: setenv("CALI_CONFIG_FILE", filelist.c_str(), 1); }
    if (how == 1 || (how == 2 && !env)) cfg.set("CALI_CONFIG_PROFILE", seltext); else if (how == 2) { setenv("CALI_CONFIG_PROFILE", seltext.c_str(), 1); if (ND_BOOL()) cfg.preset("CALI_CONFIG_PROFILE", "nosuch"); } else if (how == 3) cfg.preset("CALI_CONFIG_PROFILE", seltext);
    Map merged = pre; auto merge = [&](const std::string& n) { for (auto& p : prof[n]) merged[p.first] = p.second; }; merge("default"); for (auto& n : sel) merge(n);
    std::ostringstream err; auto* old = std::cerr.rdbuf(err.rdbuf()); ENSURES(cfg.get("tst", "key").to_string().empty(), "an unregistered variable is empty");
    for (int round = 0; round < 2; ++round) for (int s = 0; s < 3; ++s) {
        static const char* dv[] = { "", "default", "a b", "7" }; const unsigned o = ND_BELOW(4); std::vector<std::pair<std::string, std::string>> list; for (int k = 0; k < 4; ++k) list.push_back({ KEYS[k], round ? "no" : dv[(o + k) % 4] }); static unsigned off[3]; if (!round) off[s] = o;
        ConfigSet cs; if (ND_BOOL()) cs = cfg.init(SETS[s], list); else { ConfigSet::Entry e[5]; for (int k = 0; k < 4; ++k) e[k] = { list[k].first.c_str(), CALI_TYPE_STRING, list[k].second.c_str(), "", "" }; e[4] = ConfigSet::Terminator; cs = cfg.init(SETS[s], e); }
        for (int k = 0; k < 4; ++k) {
            const std::string v = var(s, k); std::string want = dv[(off[s] + k) % 4]; if (merged.count(v)) want = merged[v]; if (env && ev.count(v)) want = ev[v]; if (top.count(v)) want = top[v];
            if (getenv("VFD") && !(cs.get(KEYS[k]).to_string() == want)) { std::cerr.rdbuf(old); fprintf(stderr, "%s: got [%s] want [%s] env %d how %u sel %s files %s\n", v.c_str(), cs.get(KEYS[k]).to_string().c_str(), want.c_str(), env, how, seltext.c_str(), filelist.c_str()); for (auto& f : files) { std::ifstream is(f.c_str()); std::cerr << "--" << f << "\n" << is.rdbuf(); } }
            ENSURES(cs.get(KEYS[k]).to_string() == want && cfg.get(SETS[s], KEYS[k]).to_string() == want, "a variable has the value of the first of: set, environment, selected profiles, default profile, preset, default"); }
        ENSURES(cs.get("nosuch").to_string().empty(), "an unknown key is empty"); }
    std::cerr.rdbuf(old); for (auto& f : files) unlink(f.c_str()); for (auto& p : ev) unsetenv(p.first.c_str()); unsetenv("CALI_CONFIG_FILE"); unsetenv("CALI_CONFIG_PROFILE"); REACH("end");
}
CONTRACT(convert)
{
    bool ok; { std::string t[] = { "true", "false", "t", "f", "1", "0" }; const unsigned k = ND_BELOW(6); std::string s = t[k]; for (char& c : s) if (ND_BOOL()) c = toupper(c); ok = false; ENSURES(StringConverter(s).to_bool(&ok) == (k % 2 == 0) && ok, "boolean texts convert to their truth value"); static const char* bad[] = { "", "yes", "on", "truex", "-", "x1" }; ok = true; StringConverter(bad[ND_BELOW(6)]).to_bool(&ok); ENSURES(!ok, "other texts are not boolean values"); }
    { int64_t v = (int64_t) ND_U64(); if (ND_BOOL()) v >>= ND_BELOW(64); StringConverter c(std::to_string(v)); ok = false; ENSURES(c.to_int64(&ok) == v && ok, "a decimal integer converts to its value"); const int i = c.to_int(&ok); if (v >= INT32_MIN && v <= INT32_MAX) ENSURES(ok && i == v, "a decimal integer converts to its value"); else ENSURES(!ok, "an integer out of range does not convert"); }
    { uint64_t v = ND_U64(); if (ND_BOOL()) v >>= ND_BELOW(64); ok = false; ENSURES(StringConverter(std::to_string(v)).to_uint(&ok) == v && ok && StringConverter(std::to_string(v)).to_id() == v, "a decimal unsigned integer converts to its value"); char b[40]; snprintf(b, sizeof b, ND_BOOL() ? "%llx" : "0x%llX", (unsigned long long) v); ENSURES(StringConverter(b).to_uint(&ok, 16) == v && ok, "a hexadecimal integer converts to its value"); }
    { union { uint64_t u; double d; } x; x.u = ND_U64(); if (x.d == x.d && x.d - x.d == 0 && (x.d == 0 || (x.d < 0 ? -x.d : x.d) >= 2.3e-308)) { char b[64]; snprintf(b, sizeof b, "%.17g", x.d); ok = false; ENSURES(StringConverter(b).to_double(&ok) == x.d && ok, "a decimal number converts to its value"); } }
    { static const char* bad[] = { "", "x", "-", ".", "#", "," }; const char* b = bad[ND_BELOW(6)]; bool o[4] = { true, true, true, true }; StringConverter c(b); c.to_int(&o[0]); c.to_int64(&o[1]); c.to_uint(&o[2]); c.to_double(&o[3]); ENSURES(!o[0] && !o[1] && !o[2] && !o[3] && c.to_id() == CALI_INV_ID, "a text that is no number does not convert"); }
    Words w; std::string t; for (unsigned n = ND_BELOW(6); n > 0; --n) { w.push_back(value()); static const char* pad[] = { "", "", " ", "  " }; t += (t.empty() ? "" : ND_BOOL() ? "," : ":"); t += pad[ND_BELOW(4)]; t += spell(w.back(), ",:"); t += pad[ND_BELOW(4)]; } ENSURES(StringConverter(t).to_stringlist(",:") == w, "a list has the elements its text says"); REACH("end");
}
// random JSON-style dictionaries and lists
struct J { int k; std::string s; std::vector<J> l; std::vector<std::pair<std::string, J>> d; };
static J jval(unsigned depth) { J j; j.k = depth ? ND_BELOW(3) : 0; if (j.k == 0) j.s = value(); else for (unsigned n = ND_BELOW(4), i = 0; i < n; ++i) { J c = jval(depth - 1); if (j.k == 1) j.l.push_back(c); else j.d.push_back({ std::string(1, 'a' + i) + value(), c }); } return j; }
static std::string sp() { static const char* p[] = { "", "", " ", "\n ", "\t" }; return p[ND_BELOW(5)]; }
static std::string jtext(const J& j) { if (j.k == 0) { bool plain = !j.s.empty(); for (char c : j.s) plain = plain && isalnum((unsigned char) c); return plain && ND_BOOL() ? j.s : quoted(j.s); } std::string t = j.k == 1 ? "[" : "{"; t += sp(); if (j.k == 1) for (size_t i = 0; i < j.l.size(); ++i) t += (i ? "," : "") + sp() + jtext(j.l[i]) + sp(); else for (size_t i = 0; i < j.d.size(); ++i) t += (i ? "," : "") + sp() + quoted(j.d[i].first) + sp() + ":" + sp() + jtext(j.d[i].second) + sp(); return t + (j.k == 1 ? "]" : "}"); }
static void jcheck(const J& j, const StringConverter& c)
{
    bool ok = false;
    if (j.k == 0) ENSURES(c.to_string() == j.s, "an element has the text it says");
    else if (j.k == 1) { auto l = c.rec_list(&ok); ENSURES(ok && l.size() == j.l.size(), "a list has the elements its text says"); for (size_t i = 0; i < l.size(); ++i) jcheck(j.l[i], l[i]); }
    else { auto d = c.rec_dict(&ok); if (getenv("VFD") && !(ok && d.size() == j.d.size())) fprintf(stderr, "[%s] ok %d %zu %zu\n", c.to_string().c_str(), ok, d.size(), j.d.size()); ENSURES(ok && d.size() == j.d.size(), "a dictionary has the entries its text says"); for (auto& p : j.d) { ENSURES(d.count(p.first), "a dictionary has the entries its text says"); jcheck(p.second, d[p.first]); } }
}
CONTRACT(nested) { J j; do j = jval(3); while (j.k == 0); jcheck(j, StringConverter(sp() + jtext(j) + sp())); REACH("end"); }
#else
CONTRACT(precedence) { REACH("end"); } CONTRACT(convert) { REACH("end"); } CONTRACT(nested) { REACH("end"); }
#endif

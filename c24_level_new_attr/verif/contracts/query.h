// random CalQL queries over given attribute names
#pragma once
#include "reader.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/QueryProcessor.h"
#include "caliper/reader/QuerySpec.h"
#include "caliper/reader/Aggregator.h"
#include "caliper/reader/Preprocessor.h"
#include "caliper/reader/RecordSelector.h"
#include "caliper/reader/FormatProcessor.h"
static inline std::string q_quote(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + '"'; }
template <class L> static inline typename L::value_type q_pick(const L& l) { return l[ND_BELOW(l.size())]; }
static inline std::string q_name(const std::vector<std::string>& names) { return names.empty() || ND_BELOW(12) == 0 ? std::string("nosuch") : q_pick(names); }
static inline std::string q_num() { static const char* n[] = { "0", "1", "-1", "2.5", "1e-3", "100", "0.001", "1000000" }; return n[ND_BELOW(8)]; }
static inline std::string q_val(bool wild) { if (wild && ND_BELOW(3) == 0) { std::string s = rd_string(5, true); return s.empty() ? "x" : q_quote(s); } static const char* v[] = { "0", "1", "-7", "true", "false", "int", "main", "0.125", "1e300", "18446744073709551615", "foo", "-9223372036854775808" }; return v[ND_BELOW(12)]; }
static inline std::string q_cond(const std::vector<std::string>& n, bool wild) { std::string s = ND_BOOL() ? "not " : ""; s += q_quote(q_name(n)); static const char* op[] = { "", "=", "<", ">" }; const char* o = op[ND_BELOW(4)]; s += o; if (*o) s += q_val(wild); return s; }
static inline std::string q_aggr(const std::vector<std::string>& n, bool wild)
{
    static const char* f1[] = { "sum", "inclusive_sum", "min", "max", "inclusive_min", "inclusive_max", "avg", "percent_total", "inclusive_percent_total", "any", "variance" };
    const std::string num = wild && ND_BELOW(6) == 0 ? q_val(true) : q_num();
    switch (ND_BELOW(6)) { case 0: return "count()"; case 1: return std::string(ND_BOOL() ? "scale(" : "inclusive_scale(") + q_quote(q_name(n)) + "," + num + ")"; case 2: return std::string(ND_BOOL() ? "ratio(" : "inclusive_ratio(") + q_quote(q_name(n)) + "," + q_quote(q_name(n)) + (ND_BOOL() ? "," + num : "") + ")"; case 3: return "scale_count(" + num + ")"; default: return std::string(f1[ND_BELOW(11)]) + "(" + q_quote(q_name(n)) + ")"; }
}
static inline std::string q_let(const std::vector<std::string>& n, const std::string& tgt, bool wild)
{
    const std::string num = wild && ND_BELOW(6) == 0 ? q_val(true) : q_num(); std::string s = q_quote(tgt) + "=";
    switch (ND_BELOW(6)) { case 0: s += "ratio(" + q_quote(q_name(n)) + "," + q_quote(q_name(n)) + (ND_BOOL() ? "," + num : "") + ")"; break; case 1: s += "scale(" + q_quote(q_name(n)) + "," + num + ")"; break; case 2: s += "truncate(" + q_quote(q_name(n)) + (ND_BOOL() ? "," + num : "") + ")"; break; case 3: case 4: { s += ND_BOOL() ? "first(" : "sum("; for (unsigned i = 0, m = 1 + ND_BELOW(4); i < m; ++i) s += (i ? "," : "") + q_quote(q_name(n)); s += ")"; break; } default: s += ND_BOOL() ? "leaf()" : "leaf(" + q_quote(q_name(n)) + ")"; }
    if (ND_BOOL()) s += " if " + q_cond(n, wild); return s;
}
static inline std::string q_format(const std::vector<std::string>& n, bool wild)
{
    static const char* f[] = { "cali", "json", "expand", "table", "tree", "json-split", "json(pretty)", "json(quote-all)", "json(separate-nested,object)", "json(object)", "json(split)", "json(records,pretty)", "table(print-globals)", "table(column-width=10)", "tree(print-globals)", "tree(column-width=6)", "tree(column-width=-3)", "table(column-width=x)" };
    if (ND_BELOW(6) == 0) return std::string("format(") + q_quote(std::string("%[") + (wild ? q_val(false) : "12") + (ND_BOOL() ? "r]" : "]") + q_name(n) + "% :%" + q_name(n) + "%") + (ND_BOOL() ? ",\"the title\")" : ")");
    if (ND_BELOW(6) == 0) return "tree(" + q_quote(q_name(n) + "," + q_name(n)) + ")";
    return f[ND_BELOW(18)];
}
static inline std::string q_query(std::vector<std::string> n, bool wild)
{
    std::string s; n.push_back("path"); n.push_back("count"); n.push_back("sum#" + q_name(n));
    if (ND_BELOW(3) == 0) { s += "let "; for (unsigned i = 0, m = 1 + ND_BELOW(3); i < m; ++i) { std::string t = ND_BELOW(4) ? "let." + std::to_string(i) : q_name(n); s += (i ? "," : "") + q_let(n, t, wild); n.push_back(t); } s += " "; }
    if (ND_BOOL()) { s += "select "; if (ND_BOOL()) s += "*,"; for (unsigned i = 0, m = 1 + ND_BELOW(4); i < m; ++i) { s += (i ? "," : "") + (ND_BOOL() ? q_aggr(n, wild) : q_quote(q_name(n))); if (ND_BELOW(4) == 0) s += " as " + q_quote(wild ? "A " + rd_string(4, true) : "Alias" + std::to_string(i)); if (ND_BELOW(6) == 0) s += " unit sec"; } s += " "; }
    else if (ND_BOOL()) { s += "aggregate "; for (unsigned i = 0, m = 1 + ND_BELOW(4); i < m; ++i) s += (i ? "," : "") + q_aggr(n, wild); s += " "; }
    if (ND_BOOL()) { s += "group by "; for (unsigned i = 0, m = 1 + ND_BELOW(3); i < m; ++i) s += (i ? "," : "") + q_quote(q_name(n)); s += " "; }
    if (ND_BELOW(3) == 0) { s += "where "; for (unsigned i = 0, m = 1 + ND_BELOW(3); i < m; ++i) s += (i ? "," : "") + q_cond(n, wild); s += " "; }
    if (ND_BOOL()) { s += "order by "; for (unsigned i = 0, m = 1 + ND_BELOW(2); i < m; ++i) s += (i ? "," : "") + q_quote(q_name(n)) + (ND_BOOL() ? " desc" : ND_BOOL() ? " asc" : ""); s += " "; }
    if (ND_BELOW(4)) s += "format " + q_format(n, wild);
    return s;
}

// a CalQL query means what its text says
#include "vf.h"
#ifdef VF_NATIVE
#include "query.h"
typedef std::vector<std::string> Words;
static std::string ws() { static const char* w[] = { " ", "  ", "\n", "\t ", " \n  " }; return w[ND_BELOW(5)]; }
static std::string ows() { return ND_BELOW(3) ? "" : ws(); }
static std::string kw(const std::string& s) { std::string r; const unsigned m = ND_BELOW(3); for (char c : s) r += m == 0 ? c : m == 1 ? (char) toupper(c) : ND_BOOL() ? (char) toupper(c) : c; return r; }
static bool special(unsigned char c) { return isspace(c) || strchr(",;=<>()\"\\*", c); }
// a word in one of its spellings: plain, quoted, or with escapes
static std::string word(const std::string& s)
{
    bool sp = false; for (char c : s) sp = sp || special(c); switch (ND_BELOW(4) + (sp ? 4 : 0)) {
    case 0: case 1: case 2: return s;
    case 4: case 5: case 3: return q_quote(s);
    case 6: { std::string r; for (char c : s) { if (special(c) || ND_BELOW(6) == 0) r += '\\'; r += c; } return r; }
    default: { size_t k = ND_BELOW(s.size() + 1); std::string r; for (size_t i = 0; i < k; ++i) { if (special(s[i])) r += '\\'; r += s[i]; } return r + q_quote(s.substr(k)); } }
}
static bool reserved(std::string s) { if (s == "path" || s == "prop:nested") return true; for (char& c : s) c = tolower(c); return s == "not"; }
static std::string name() { static const char* n[] = { "a", "b.c", "function", "time.duration.ns", "iteration#main loop", "select", "where", "as", "unit", "format", "12", "asc", "x=y", "f(x)", "\"q\"", "back\\slash", "a,b", "<", "*", "if" }; std::string s; do s = ND_BELOW(4) == 0 ? rd_string(6, false) : n[ND_BELOW(20)]; while (s.empty() || reserved(s)); return s; }
template <class F> static std::string list(const std::vector<F>& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? ows() + "," + ows() : "") + v[i]; return s; }
static Words args_for(const QuerySpec::FunctionSignature& d) { Words a; for (int n = d.min_args + (int) ND_BELOW(d.max_args - d.min_args + 1); n > 0; --n) a.push_back(name()); return a; }
static std::string call(const char* f, const Words& args) { Words w; for (auto& a : args) w.push_back(word(a)); return kw(f) + ows() + (args.empty() && ND_BOOL() ? "" : "(" + ows() + list(w) + ows() + ")"); }
static std::string aggr_call(const char* f, const Words& args) { Words w; for (auto& a : args) w.push_back(word(a)); return kw(f) + ows() + "(" + ows() + list(w) + ows() + ")"; }
static std::string result_name(const QuerySpec::AggregationOp& o)
{
    const std::string f = o.op.name; if (f == "count") return f; if (f == "scale_count") return "scount"; if (f == "inclusive_sum") return "inclusive#" + o.args[0]; std::string p = f.compare(0, 10, "inclusive_") == 0 ? "i" + f.substr(10) : f; p += "#" + o.args[0]; if (f == "ratio" || f == "inclusive_ratio") p += "/" + o.args[1]; return p;
}
static QuerySpec::AggregationOp aggr() { const auto* d = Aggregator::aggregation_defs(); unsigned n = 0; while (d[n].name) ++n; const auto& s = d[ND_BELOW(n)]; return QuerySpec::AggregationOp(s, args_for(s)); }
static std::string cond(QuerySpec::Condition& c)
{
    typedef QuerySpec::Condition C; const bool neg = ND_BOOL(); c.attr_name = name(); std::string s = neg ? kw("not") + ws() : ""; s += word(c.attr_name); static const C::Op ops[2][4] = { { C::Exist, C::Equal, C::LessThan, C::GreaterThan }, { C::NotExist, C::NotEqual, C::GreaterOrEqual, C::LessOrEqual } };
    const unsigned k = ND_BELOW(4); c.op = ops[neg][k]; if (k) { c.value = name(); s += ows() + "=<>"[k - 1] + ows() + word(c.value); } return s;
}
static std::string text(const QuerySpec& s, bool print);
static bool same(const QuerySpec::AggregationOp& a, const QuerySpec::AggregationOp& b) { return a.op.id == b.op.id && a.args == b.args; }
static bool same(const QuerySpec::Condition& a, const QuerySpec::Condition& b) { return a.op == b.op && (a.op == QuerySpec::Condition::None || (a.attr_name == b.attr_name && a.value == b.value)); }
template <class T, class F> static bool all2(const T& a, const T& b, F f) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!f(a[i], b[i])) return false; return true; }
static void compare(const QuerySpec& got, const QuerySpec& want, bool names)
{
    ENSURES(all2(got.preprocess_ops, want.preprocess_ops, [](const QuerySpec::PreprocessSpec& a, const QuerySpec::PreprocessSpec& b) { return a.target == b.target && same(a.op, b.op) && same(a.cond, b.cond); }), "LET terms are what the text says");
    ENSURES(got.aggregate.selection == want.aggregate.selection && all2(got.aggregate.list, want.aggregate.list, [](const QuerySpec::AggregationOp& a, const QuerySpec::AggregationOp& b) { return same(a, b); }), "aggregations are what the text says");
    ENSURES(got.select.selection == want.select.selection && (want.select.selection == QuerySpec::AttributeSelection::All || (got.select.list == want.select.list && got.select.use_path == want.select.use_path)), "the selection is what the text says");
    ENSURES(got.groupby.selection == want.groupby.selection && got.groupby.list == want.groupby.list && got.groupby.use_path == want.groupby.use_path, "the aggregation key is what the text says");
    ENSURES(got.filter.selection == want.filter.selection && all2(got.filter.list, want.filter.list, [](const QuerySpec::Condition& a, const QuerySpec::Condition& b) { return same(a, b); }), "the conditions are what the text says");
    ENSURES(got.sort.selection == want.sort.selection && all2(got.sort.list, want.sort.list, [](const QuerySpec::SortSpec& a, const QuerySpec::SortSpec& b) { return a.attribute == b.attribute && a.order == b.order; }), "the sort keys are what the text says");
    ENSURES(got.format.opt == want.format.opt && (want.format.opt == QuerySpec::FormatSpec::Default || (got.format.formatter.id == want.format.formatter.id && got.format.kwargs == want.format.kwargs)), "the format is what the text says");
    if (names || want.select.selection != QuerySpec::AttributeSelection::All) ENSURES(got.aliases == want.aliases && got.units == want.units, "aliases and units are what the text says");
}
static QuerySpec empty_spec() { QuerySpec s; s.aggregate.selection = QuerySpec::AggregationSelection::None; s.groupby.selection = s.select.selection = QuerySpec::AttributeSelection::Default; s.filter.selection = QuerySpec::FilterSelection::None; s.sort.selection = QuerySpec::SortSelection::None; s.format.opt = QuerySpec::FormatSpec::Default; s.select.use_path = s.groupby.use_path = false; return s; }
// a random query: its clauses' texts in some order, and what they mean
static Words query(QuerySpec& s)
{
    Words cl; s = empty_spec();
    if (ND_BELOW(3) == 0) { Words t; for (unsigned n = 1 + ND_BELOW(3); n > 0; --n) { QuerySpec::PreprocessSpec p; p.target = name(); bool dup = false; for (auto& o : s.preprocess_ops) dup = dup || o.target == p.target; if (dup) continue; const auto* d = Preprocessor::preprocess_defs(); unsigned m = 0; while (d[m].name) ++m; const auto& f = d[ND_BELOW(m)]; p.op = QuerySpec::AggregationOp(f, args_for(f)); std::string x = word(p.target) + ows() + "=" + ows() + call(f.name, p.op.args); if (ND_BOOL()) x += ws() + kw("if") + ws() + cond(p.cond); t.push_back(x); s.preprocess_ops.push_back(p); } cl.push_back(kw("let") + ws() + list(t)); }
    if (ND_BOOL()) {
        Words t; bool star = false; s.select.selection = QuerySpec::AttributeSelection::List;
        for (unsigned n = 1 + ND_BELOW(4); n > 0; --n) {
            std::string x, key; switch (ND_BELOW(6)) {
            case 0: if (ND_BOOL()) { star = true; x = "*"; t.push_back(x); continue; } if (s.select.use_path) continue; s.select.use_path = true; x = word("path"); t.push_back(x); continue;
            case 1: case 2: { auto o = aggr(); key = result_name(o); s.aggregate.selection = QuerySpec::AggregationSelection::List; s.aggregate.list.push_back(o); x = aggr_call(o.op.name, o.args); s.select.list.push_back(key); break; }
            default: key = name(); x = word(key); s.select.list.push_back(key); }
            if (ND_BELOW(3) == 0) { std::string a = name(); s.aliases[key] = a; x += ws() + kw("as") + ws() + word(a); } if (ND_BELOW(4) == 0) { std::string a = name(); s.units[key] = a; x += ws() + kw("unit") + ws() + word(a); } t.push_back(x); }
        if (t.empty()) { t.push_back("*"); star = true; } if (star) s.select.selection = QuerySpec::AttributeSelection::All; cl.push_back(kw("select") + ws() + list(t));
    } else if (ND_BELOW(3) == 0) { Words t; s.aggregate.selection = QuerySpec::AggregationSelection::List; for (unsigned n = 1 + ND_BELOW(3); n > 0; --n) { auto o = aggr(); s.aggregate.list.push_back(o); t.push_back(call(o.op.name, o.args)); } cl.push_back(kw("aggregate") + ws() + list(t)); }
    if (ND_BELOW(3) == 0) { Words t; s.groupby.selection = QuerySpec::AttributeSelection::List; for (unsigned n = 1 + ND_BELOW(3); n > 0; --n) if (!s.groupby.use_path && ND_BELOW(4) == 0) { s.groupby.use_path = true; t.push_back(ND_BOOL() ? "path" : "prop:nested"); } else { s.groupby.list.push_back(name()); t.push_back(word(s.groupby.list.back())); } cl.push_back(kw("group") + ws() + kw("by") + ws() + list(t)); }
    if (ND_BELOW(3) == 0) { Words t; s.filter.selection = QuerySpec::FilterSelection::List; for (unsigned n = 1 + ND_BELOW(3); n > 0; --n) { QuerySpec::Condition c; t.push_back(cond(c)); s.filter.list.push_back(c); } cl.push_back(kw("where") + ws() + list(t)); }
    if (ND_BELOW(3) == 0) { Words t; s.sort.selection = QuerySpec::SortSelection::List; for (unsigned n = 1 + ND_BELOW(3); n > 0; --n) { const unsigned o = ND_BELOW(3); std::string a = name(); s.sort.list.push_back(QuerySpec::SortSpec(a, o == 2 ? QuerySpec::SortSpec::Descending : QuerySpec::SortSpec::Ascending)); t.push_back(word(a) + (o == 0 ? "" : ws() + kw(o == 1 ? "asc" : "desc"))); } cl.push_back(kw("order") + ws() + kw("by") + ws() + list(t)); }
    if (ND_BELOW(3) == 0) {
        const auto* d = FormatProcessor::formatter_defs(); unsigned m = 0; while (d[m].name) ++m; const auto& f = d[ND_BELOW(m)]; s.format.opt = QuerySpec::FormatSpec::User; s.format.formatter = f; Words t;
        // arguments by position, by name, or as flag
        for (int n = f.min_args + (int) ND_BELOW(f.max_args - f.min_args + 1), i = 0; i < n; ++i) { const unsigned k = ND_BELOW(3); std::string v; do v = name(); while (v.find('=') != std::string::npos); for (int j = 0; j < f.max_args; ++j) if (v == f.args[j]) v += "_"; if (k == 0) { s.format.kwargs[f.args[i]] = v; t.push_back(word(v)); } else { const int a = ND_BELOW(f.max_args); if (k == 1) { if (ND_BOOL()) v += "=" + name(); s.format.kwargs[f.args[a]] = v; t.push_back(word(f.args[a] + std::string("=") + v)); } else { s.format.kwargs[f.args[a]] = "true"; t.push_back(f.args[a]); } } }
        cl.push_back(kw("format") + ws() + kw(f.name) + (t.empty() && ND_BOOL() ? "" : ows() + "(" + ows() + list(t) + ows() + ")")); }
    for (size_t i = cl.size(); i > 1; --i) std::swap(cl[i - 1], cl[ND_BELOW(i)]); return cl;
}
static std::string join(const Words& cl) { std::string q = ows(); for (size_t i = 0; i < cl.size(); ++i) q += (i ? ws() : "") + cl[i]; return q + ows(); }
CONTRACT(parse_query)
{
    rd_setup(); QuerySpec want; const std::string q = join(query(want)); CalQLParser p(q.c_str()); if (getenv("VFD")) fprintf(stderr, "[%s] %s\n", q.c_str(), p.error_msg().c_str());
    ENSURES(!p.error(), "a query in the documented syntax is accepted"); compare(p.spec(), want, true); REACH("end");
}
CONTRACT(print_query)
{
    // a query's printed form means the same
    rd_setup(); QuerySpec want; const std::string q = join(query(want)); std::ostringstream os; os << want; CalQLParser p(os.str().c_str()); if (getenv("VFD")) fprintf(stderr, "[%s] %s\n", os.str().c_str(), p.error_msg().c_str());
    ENSURES(!p.error(), "a printed query is accepted"); compare(p.spec(), want, false); REACH("end");
}
CONTRACT(reject_query)
{
    rd_setup(); QuerySpec s; Words cl = query(s); std::string bad; static const char* fn[] = { "summ(x)", "sum()", "sum(a,b,c)", "count(x)", "ratio(a)", "sum(a", "sum(a,b", "scale(a)" };
    switch (ND_BELOW(9)) {
    case 0: bad = "selecct a"; break;
    case 1: bad = std::string(ND_BOOL() ? "aggregate " : "select ") + fn[ND_BELOW(8)]; break;
    case 2: bad = "select a as"; break;
    case 3: bad = ND_BOOL() ? "group function" : "order function"; break;
    case 4: { static const char* w[] = { "where a=", "where not", "where a,", "where <5", "where a<", "where a>" }; bad = w[ND_BELOW(6)]; break; }
    case 5: { static const char* w[] = { "let x", "let x=foo(a)", "let x=scale(a)", "let x=ratio(a,b,1,2)", "let x=scale(a,2),x=scale(b,2)", "let x=scale(a,2" }; bad = w[ND_BELOW(6)]; break; }
    case 6: { static const char* w[] = { "format xml", "format format", "format table(a,b,c)", "format table(nosuch=1)", "format json(pretty" }; bad = w[ND_BELOW(5)]; break; }
    case 7: bad = "select a b"; break;
    default: bad = "order by"; }
    // the error is the last thing in the query
    cl.push_back(bad); for (size_t i = 0; i + 1 < cl.size();) { const std::string& c = cl[i]; std::string first, b; for (char x : c) { if (isspace((unsigned char) x)) break; first += tolower(x); } b = bad.substr(0, bad.find(' ')); if (first == b) cl.erase(cl.begin() + i); else ++i; }
    const std::string q = join(cl); CalQLParser p(q.c_str()); if (getenv("VFD")) fprintf(stderr, "[%s] %s\n", q.c_str(), p.error_msg().c_str()); ENSURES(p.error() && !p.error_msg().empty(), "an invalid query is reported"); REACH("end");
}
#else
CONTRACT(parse_query) { REACH("end"); }
CONTRACT(print_query) { REACH("end"); }
CONTRACT(reject_query) { REACH("end"); }
#endif

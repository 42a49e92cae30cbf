// strict JSON (RFC 8259) reader
#pragma once
#include <string>
#include <utility>
#include <vector>
struct J {
    enum T { Null, Bool, Num, Str, Arr, Obj } t = Null; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    const J* get(const std::string& k) const { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
};
struct JParser {
    const std::string& d; size_t p = 0; bool ok = true; std::string why;
    JParser(const std::string& x) : d(x) {}
    bool fail(const char* w) { if (ok) { ok = false; why = std::string(w) + " at " + std::to_string(p) + ": " + d.substr(p > 20 ? p - 20 : 0, 40); } return false; }
    int c() { return p < d.size() ? (unsigned char) d[p] : -1; }
    void ws() { while (c() == ' ' || c() == '\t' || c() == '\n' || c() == '\r') ++p; }
    bool lit(const char* s) { std::string x = s; if (d.compare(p, x.size(), x)) return fail("literal"); p += x.size(); return true; }
    bool str(std::string& r)
    {
        if (c() != '"') return fail("string expected"); ++p;
        while (true) { int k = c(); if (k < 0x20) return fail("control character or end in string"); ++p; if (k == '"') return true; if (k != '\\') { r += (char) k; continue; }
            k = c(); ++p; switch (k) { case '"': case '\\': case '/': r += (char) k; break; case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; default: return fail("escape"); } }
    }
    bool digits() { if (c() < '0' || c() > '9') return fail("digit expected"); while (c() >= '0' && c() <= '9') ++p; return true; }
    bool num(J& j) { size_t b = p; if (c() == '-') ++p; if (c() == '0') ++p; else if (!digits()) return false; if (c() == '.') { ++p; if (!digits()) return false; } if (c() == 'e' || c() == 'E') { ++p; if (c() == '+' || c() == '-') ++p; if (!digits()) return false; } j.t = J::Num; j.s = d.substr(b, p - b); return true; }
    bool value(J& j)
    {
        ws(); switch (c()) {
        case '"': j.t = J::Str; return str(j.s);
        case 't': j.t = J::Bool; j.s = "true"; return lit("true");
        case 'f': j.t = J::Bool; j.s = "false"; return lit("false");
        case 'n': return lit("null");
        case '[': j.t = J::Arr; ++p; ws(); if (c() == ']') { ++p; return true; } while (true) { j.a.emplace_back(); if (!value(j.a.back())) return false; ws(); if (c() == ',') { ++p; continue; } if (c() == ']') { ++p; return true; } return fail("',' or ']' expected"); }
        case '{': j.t = J::Obj; ++p; ws(); if (c() == '}') { ++p; return true; } while (true) { ws(); j.o.emplace_back(); if (!str(j.o.back().first)) return false; for (size_t i = 0; i + 1 < j.o.size(); ++i) if (j.o[i].first == j.o.back().first) return fail("duplicate member"); ws(); if (c() != ':') return fail("':' expected"); ++p; if (!value(j.o.back().second)) return false; ws(); if (c() == ',') { ++p; continue; } if (c() == '}') { ++p; return true; } return fail("',' or '}' expected"); }
        default: return num(j);
        }
    }
    bool document(J& j) { if (!value(j)) return false; ws(); return p == d.size() || fail("text after the document"); }
};

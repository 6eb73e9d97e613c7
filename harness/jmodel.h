// Small independent JSON value used by the reference models (harness side only, ordinary heap).
#pragma once
#ifdef KLB_YAML
#include <yaml-cpp/yaml.h>
#else
#include <rapidjson/document.h>
#endif
#include <cstdint>
#include <cstdio>
#include <string>
#include <utility>
#include <vector>

struct J {
    enum T { NUL, BOOL, INT, DBL, STR, ARR, OBJ } t = NUL;
    int64_t i = 0; double d = 0; uint64_t u = 0; bool isu = false; /* DBL holding an integer above int64 */ bool isf = false; /* DBL known only to float precision */ std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    static J null() { return {}; }
    static J boolean(bool b) { J j; j.t = BOOL; j.i = b; return j; }
    static J integer(int64_t v) { J j; j.t = INT; j.i = v; return j; }
    static J big(uint64_t v) { J j; j.t = DBL; j.d = (double)v; j.u = v; j.isu = true; return j; }
    static J dbl(double v) { J j; j.t = DBL; j.d = v; return j; }
    static J str(std::string v) { J j; j.t = STR; j.s = std::move(v); return j; }
    static J arr() { J j; j.t = ARR; return j; }
    static J obj() { J j; j.t = OBJ; return j; }
    J& add(const std::string& k, J v) { o.emplace_back(k, std::move(v)); return *this; }
    const J* find(const std::string& k) const { for (auto& m : o) if (m.first == k) return &m.second; return nullptr; }
};
// equality of documents: members unordered (no duplicates expected)
inline bool jeq(const J& x, const J& y)
{
    if (x.t != y.t) return false;
    switch (x.t) {
    case J::NUL: return true;
    case J::BOOL: case J::INT: return x.i == y.i;
    case J::DBL: if (x.isu && y.isu) return x.u == y.u; { double m = x.d < 0 ? -x.d : x.d, e = 1e-14 * m; /* RapidJSON reads within an ulp or so */ return x.d == y.d || (x.d - y.d < e && y.d - x.d < e); }
    case J::STR: return x.s == y.s;
    case J::ARR: if (x.a.size() != y.a.size()) return false; for (size_t k = 0; k < x.a.size(); ++k) if (!jeq(x.a[k], y.a[k])) return false; return true;
    case J::OBJ: if (x.o.size() != y.o.size()) return false;
        for (auto& m : x.o) { const J* p = y.find(m.first); if (!p || !jeq(m.second, *p)) return false; } return true;
    }
    return false;
}
inline void jwrite(const J& j, std::string& out)
{
    auto str = [&](const std::string& s) {
        out += '"';
        for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { out += '\\'; out += (char)c; } else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); out += b; } else out += (char)c; }
        out += '"';
    };
    char b[40];
    switch (j.t) {
    case J::NUL: out += "null"; break;
    case J::BOOL: out += j.i ? "true" : "false"; break;
    case J::INT: snprintf(b, sizeof b, "%lld", (long long)j.i); out += b; break;
    case J::DBL: if (j.isu) { snprintf(b, sizeof b, "%llu", (unsigned long long)j.u); out += b; break; } snprintf(b, sizeof b, "%.17g", j.d); out += b; { bool f = false; for (char* p = b; *p; ++p) if (*p == '.' || *p == 'e') f = true; if (!f) out += ".0"; } break;
    case J::STR: str(j.s); break;
    case J::ARR: out += '['; for (size_t k = 0; k < j.a.size(); ++k) { if (k) out += ','; jwrite(j.a[k], out); } out += ']'; break;
    case J::OBJ: out += '{'; for (size_t k = 0; k < j.o.size(); ++k) { if (k) out += ','; str(j.o[k].first); out += ':'; jwrite(j.o[k].second, out); } out += '}'; break;
    }
}
inline std::string jtext(const J& j) { std::string s; jwrite(j, s); return s; }
#ifndef KLB_YAML
inline J jfrom(const rapidjson::Value& v)
{
    J j;
    if (v.IsNull()) return j;
    if (v.IsBool()) return J::boolean(v.GetBool());
    if (v.IsInt64()) return J::integer(v.GetInt64());
    if (v.IsUint64()) return J::big(v.GetUint64());
    if (v.IsNumber()) return J::dbl(v.GetDouble());
    if (v.IsString()) return J::str(std::string(v.GetString(), v.GetStringLength()));
    if (v.IsArray()) { j.t = J::ARR; for (auto& e : v.GetArray()) j.a.push_back(jfrom(e)); return j; }
    j.t = J::OBJ; for (auto& m : v.GetObject()) j.o.emplace_back(std::string(m.name.GetString(), m.name.GetStringLength()), jfrom(m.value));
    return j;
}
inline bool jparse(const std::string& text, J& out)
{
    rapidjson::Document d; d.Parse(text.data(), text.size());
    if (d.HasParseError()) return false;
    out = jfrom(d); return true;
}
#else
// YAML: every scalar is a STR holding its text (what a number or bool is depends on the type that reads it)
constexpr const char* kBadKey = "\1not a scalar key";
inline J jfrom(const YAML::Node& v, bool& usable, int depth = 0)
{
    J j; if (depth > 60) { usable = false; return j; } // aliases can make a document cyclic
    if (!v || v.IsNull()) return j;
    if (v.IsScalar()) return J::str(v.Scalar());
    if (v.IsSequence()) { j.t = J::ARR; for (const auto& e : v) { j.a.push_back(jfrom(e, usable, depth + 1)); if (!usable || j.a.size() > 3000) { usable = false; return j; } } return j; }
    j.t = J::OBJ; for (const auto& m : v) { if (m.first.IsScalar()) j.o.emplace_back(m.first.Scalar(), jfrom(m.second, usable, depth + 1)); else j.o.emplace_back(kBadKey, jfrom(m.second, usable, depth + 1)); if (!usable) return j; }
    return j;
}
inline J jfrom(const YAML::Node& v) { bool u = true; return jfrom(v, u); }
// returns false when the text is no document; usable: whether the text says something the model can represent
inline bool jparse(const std::string& text, J& out, bool& usable)
{
    usable = true;
    try { out = jfrom(YAML::Load(text.c_str()), usable); return true; } catch (const YAML::Exception&) { return false; } catch (...) { usable = false; return false; }
}
inline bool jparse(const std::string& text, J& out) { bool u; return jparse(text, out, u) && u; }
template <typename T> bool yas(const J& j, T& out) { if (j.t != J::STR) return false; try { out = YAML::Node(j.s).as<T>(); return true; } catch (const YAML::Exception&) { return false; } }
// does a produced document state the expected content
inline bool jstates(const J& x, const J& e)
{
    switch (e.t) {
    case J::NUL: return x.t == J::NUL;
    case J::BOOL: { bool b; return yas(x, b) && b == (e.i != 0); }
    case J::INT: { int64_t n; return yas(x, n) && n == e.i; }
    case J::DBL: if (e.isu) { uint64_t n; return yas(x, n) && n == e.u; } if (e.isf) { float f; return yas(x, f) && f == (float)e.d; } { double d; return yas(x, d) && d == e.d; }
    case J::STR: return x.t == J::STR && x.s == e.s;
    case J::ARR: if (x.t != J::ARR || x.a.size() != e.a.size()) return false; for (size_t k = 0; k < x.a.size(); ++k) if (!jstates(x.a[k], e.a[k])) return false; return true;
    case J::OBJ: if (x.t != J::OBJ || x.o.size() != e.o.size()) return false; for (auto& m : e.o) { const J* p = x.find(m.first); if (!p || !jstates(*p, m.second)) return false; } return true;
    }
    return false;
}
#endif

#include "jsonmodel.h"
#include <set>
namespace jm {
static bool isnull(const J* j) { return !j || j->t == J::NUL; }
V defv(const Schema& s)
{
    V v; v.k = s.k;
    switch (s.k) {
    case FIX: for (unsigned i = 0; i < s.n; ++i) v.a.push_back(defv(*s.e)); break;
    case TUP: for (auto* e : s.t) v.a.push_back(defv(*e)); break;
    case STRUCT: for (auto& f : s.f) v.a.push_back(defv(*f.s)); break;
    case ENUM: v.i = s.names[0].first; break; // every reflected enum of the harness starts with its first enumerator
    case VIEW: v.s = "null"; break;
    case POINT: v.a.resize(2); v.a[0].k = v.a[1].k = I32; break;
    case TRIPLE: v.a.resize(4); v.a[0].k = I32; v.a[1].k = STR; v.a[2].k = OPT; v.a[3].k = U8; break;
    default: break;
    }
    return v;
}
static bool integral(const J* j, int64_t lo, uint64_t hi, V& v)
{
    if (isnull(j)) return false;
    if (j->t == J::INT) { if (j->i < lo || (j->i > 0 && (uint64_t)j->i > hi)) return false; if (v.k >= U8 && v.k <= U64) v.u = (uint64_t)j->i; else v.i = j->i; return true; }
    if (j->t == J::DBL && j->isu) { if (hi < j->u) return false; v.u = j->u; return true; }
    return false;
}
#ifdef KLB_YAML
template <typename T> static bool ynum(const J* j, V& v) { T x; if (isnull(j) || !yas(*j, x)) return false; if (std::is_unsigned<T>::value) v.u = (uint64_t)x; else v.i = (int64_t)x; return true; }
#endif
static bool number(Kind k, const J* j, V& v)
{
#ifdef KLB_YAML // what a scalar means as a number is the YAML library's business
    switch (k) {
    case I8: return ynum<int8_t>(j, v); case I16: return ynum<int16_t>(j, v); case I32: return ynum<int32_t>(j, v); case I64: return ynum<int64_t>(j, v);
    case U8: return ynum<uint8_t>(j, v); case U16: return ynum<uint16_t>(j, v); case U32: return ynum<uint32_t>(j, v); case U64: return ynum<uint64_t>(j, v);
    default: return false;
    }
#endif
    switch (k) {
    case I8: return integral(j, -128, 127, v);
    case I16: return integral(j, -32768, 32767, v);
    case I32: return integral(j, INT32_MIN, INT32_MAX, v);
    case I64: return integral(j, INT64_MIN, INT64_MAX, v);
    case U8: return integral(j, 0, 255, v);
    case U16: return integral(j, 0, 65535, v);
    case U32: return integral(j, 0, UINT32_MAX, v);
    case U64: return integral(j, 0, UINT64_MAX, v);
    default: return false;
    }
}
static double num(const V& v) { return v.k >= U8 && v.k <= U64 ? (double)v.u : v.k == F32 || v.k == F64 ? v.d : (double)v.i; }
static const J* look(const J& o, const FieldS& f)
{
    const char* c = f.rename ? f.rename : f.name;
    if (const J* p = o.find(c)) return p;
    for (auto* a : f.aliases) if (const J* p = o.find(a)) return p;
    return nullptr;
}
static void set_def(const FieldS& f, V& v)
{
    if (f.s->k == STR) v.s = f.ds;
    else if (f.s->k == OPT) { v.a.assign(1, defv(*f.s->e)); v.a[0].i = f.di; }
    else if (v.k >= U8 && v.k <= U64) v.u = (uint64_t)f.di;
    else v.i = f.di;
}
static void collect(const Schema& s, std::set<std::string>& out)
{
    for (auto& f : s.f) {
        if (f.flags & EXTRA) continue;
        if (f.flags & FLAT) { collect(*f.s, out); continue; }
        out.insert(f.rename ? f.rename : f.name); for (auto* a : f.aliases) out.insert(a);
    }
}
static bool valid(const FieldS& f, const V& v) { if (v.k == OPT && (f.flags & VALID)) return !v.a.empty() && !(num(v.a[0]) < f.lo) && !(num(v.a[0]) > f.hi); return !(f.flags & VALID) || (!(num(v) < f.lo) && !(num(v) > f.hi)); }
static void mapput(V& m, const std::string& k, V v, bool replace)
{
    size_t i = 0; while (i < m.keys.size() && m.keys[i] < k) ++i;
    if (i < m.keys.size() && m.keys[i] == k) { if (replace) m.a[i] = std::move(v); return; }
    m.keys.insert(m.keys.begin() + (long)i, k); m.a.insert(m.a.begin() + (long)i, std::move(v));
}
static V* mapget(V& m, const std::string& k) { for (size_t i = 0; i < m.keys.size(); ++i) if (m.keys[i] == k) return &m.a[i]; return nullptr; }

#ifdef KLB_YAML
static bool badkey(const std::string& k, Err& e) { if (k != kBadKey) return false; e.badkey = true; return true; }
#else
static bool badkey(const std::string&, Err&) { return false; }
#endif
static bool ticket(const J* j, V& v)
{
    if (isnull(j) || j->t != J::STR || j->s.size() < 3 || j->s.size() > 6 || j->s[0] != 'T' || j->s[1] != '-') return false;
    int64_t n = 0; for (size_t i = 2; i < j->s.size(); ++i) { if (j->s[i] < '0' || j->s[i] > '9') return false; n = n * 10 + (j->s[i] - '0'); }
    v.i = n; return true;
}
bool deser(const Schema& s, const J* j, V& v, Err& e)
{
    v.k = s.k;
    switch (s.k) {
    case I8: case I16: case I32: case I64: case U8: case U16: case U32: case U64: return number(s.k, j, v);
#ifdef KLB_YAML
    case BOOL: { bool b; if (isnull(j) || !yas(*j, b)) return false; v.i = b; return true; }
    case F32: { float f; if (isnull(j) || !yas(*j, f)) return false; v.d = f; return true; }
    case F64: { double d; if (isnull(j) || !yas(*j, d)) return false; v.d = d; return true; }
#else
    case BOOL: if (isnull(j) || j->t != J::BOOL) return false; v.i = j->i; return true;
    case F32: case F64: {
        if (isnull(j) || (j->t != J::INT && j->t != J::DBL)) return false;
        double d = j->t == J::INT ? (double)j->i : j->isu ? (double)j->u : j->d; v.d = s.k == F32 ? (double)(float)d : d; return true; }
#endif
    case STR: if (isnull(j) || j->t != J::STR) return false; v.s = j->s; return true;
    case ENUM: if (isnull(j) || j->t != J::STR) return false; for (auto& n : s.names) if (j->s == n.second) { v.i = n.first; return true; } return false;
    case PENUM: { V t; t.k = s.e->k; if (!number(s.e->k, j, t)) return false; v.i = t.k >= U8 && t.k <= U64 ? (int64_t)t.u : t.i; return true; }
    case ESET: if (isnull(j) || j->t != J::ARR) return false; v.u = 0; for (auto& x : j->a) { V t; if (!deser(*s.e, &x, t, e)) return false; v.u |= (uint64_t)t.i; } return true;
    case SEQ: if (isnull(j) || j->t != J::ARR) return false; v.a.clear(); for (auto& x : j->a) { V t = defv(*s.e); if (!deser(*s.e, &x, t, e)) return false; v.a.push_back(std::move(t)); } return true;
    case FIX: if (isnull(j) || j->t != J::ARR || j->a.size() > s.n) return false; for (unsigned i = 0; i < s.n; ++i) if (!deser(*s.e, i < j->a.size() ? &j->a[i] : nullptr, v.a[i], e)) return false; return true;
    case TUP: if (isnull(j) || j->t != J::ARR || j->a.size() > s.t.size()) return false; for (size_t i = 0; i < s.t.size(); ++i) if (!deser(*s.t[i], i < j->a.size() ? &j->a[i] : nullptr, v.a[i], e)) return false; return true;
    case OPT: { if (isnull(j)) { v.a.clear(); return true; } V t = defv(*s.e); if (!deser(*s.e, j, t, e)) return false; v.a.assign(1, std::move(t)); return true; }
    case MAP: {
        if (isnull(j) || j->t != J::OBJ) return false; v.a.clear(); v.keys.clear();
        for (auto& m : j->o) { if (badkey(m.first, e)) return false; V t = defv(*s.e); if (!deser(*s.e, &m.second, t, e)) { e.path.push_back(m.first); return false; } if (mapget(v, m.first)) e.dup = true; mapput(v, m.first, std::move(t), false); }
        return true; }
    case VIEW: v.s = j ? jtext(*j) : "null"; return true;
    case TICKET: return ticket(j, v);
    case POINT: if (isnull(j) || j->t != J::OBJ) return false; if (v.a.size() < 2) v = defv(s);
        for (int c = 0; c < 2; ++c) { V t; t.k = I32; if (!number(I32, j->find(c ? "py" : "px"), t)) { e.path.push_back(c ? "py" : "px"); return false; } v.a[c] = t; } return true;
    case TRIPLE: {
        if (isnull(j) || j->t != J::ARR) return false; if (v.a.size() < 4) v = defv(s);
        auto at = [&](size_t n) { return n < j->a.size() ? &j->a[n] : nullptr; };
        { V t; t.k = I32; if (!number(I32, at(0), t)) { e.path.push_back("element 0"); return false; } v.a[0] = t; }
        if (isnull(at(1)) || at(1)->t != J::STR) { e.path.push_back("element 1"); return false; } v.a[1].s = at(1)->s;
        if (isnull(at(3))) v.a[2].a.clear(); else { V t; t.k = I32; if (!number(I32, at(3), t)) { e.path.push_back("element 3"); return false; } v.a[2].a.assign(1, t); }
        { V t; t.k = U8; if (!number(U8, at(4), t)) { e.path.push_back("element 4"); return false; } v.a[3] = t; }
        return true; }
    case STRUCT: break;
    }
    if (isnull(j)) return false;
    if (j->t == J::OBJ) {
        std::set<std::string> reserved; collect(s, reserved);
        for (size_t n = 0; n < s.f.size(); ++n) {
            auto& f = s.f[n]; V& x = v.a[n];
            if (f.flags & SKIPD) continue;
            if (f.flags & EXTRA) {
                x.a.clear(); x.keys.clear();
                for (auto& m : j->o) { if (badkey(m.first, e)) return false; if (reserved.count(m.first)) continue; V t = defv(*f.s->e); if (!deser(*f.s->e, &m.second, t, e)) { e.path.push_back(m.first); return false; } if (mapget(x, m.first)) e.dup = true; mapput(x, m.first, std::move(t), false); }
                continue;
            }
            if (f.flags & FLAT) { if (!deser(*f.s, j, x, e)) { e.path.push_back(f.name); return false; } continue; }
            const J* p = look(*j, f);
            if (!p) { if (f.flags & HASDEF) { set_def(f, x); continue; } if (f.flags & ALLOWMISS) continue; }
            else if (p->t == J::NUL && (f.flags & HASDEF)) { set_def(f, x); continue; }
            if (!deser(*f.s, p, x, e) || !valid(f, x)) { e.path.push_back(f.name); return false; }
        }
        return true;
    }
    if (j->t == J::ARR) {
        size_t m = 0; bool bad = false; for (auto& f : s.f) if (!(f.flags & SKIPD)) { ++m; if (f.flags & (EXTRA | FLAT)) bad = true; }
        if (m < j->a.size() || bad) return false;
        size_t i = 0;
        for (size_t n = 0; n < s.f.size(); ++n) { auto& f = s.f[n]; if (f.flags & SKIPD) continue; if (!deser(*f.s, i < j->a.size() ? &j->a[i] : nullptr, v.a[n], e) || !valid(f, v.a[n])) return false; ++i; }
        return true;
    }
    return false;
}
bool patch(const Schema& s, const J* j, V& v, Err& e)
{
    if (s.k == OPT) {
        if (isnull(j)) { v.a.clear(); return true; }
        if (!v.a.empty()) return patch(*s.e, j, v.a[0], e);
        V t = defv(*s.e); if (!patch(*s.e, j, t, e)) return false; v.a.assign(1, std::move(t)); return true;
    }
    if (s.k == POINT) { // user-defined: only the given coordinates
        if (isnull(j) || j->t != J::OBJ) return false;
        for (int c = 0; c < 2; ++c) if (const J* p = j->find(c ? "py" : "px")) { V t; t.k = I32; if (!number(I32, p, t)) return false; v.a[c] = t; }
        return true;
    }
    if (s.k != STRUCT || isnull(j) || j->t != J::OBJ) return deser(s, j, v, e);
    std::set<std::string> reserved; collect(s, reserved);
    for (size_t n = 0; n < s.f.size(); ++n) {
        auto& f = s.f[n]; V& x = v.a[n];
        if (f.flags & SKIPD) continue;
        if (f.flags & EXTRA) {
            std::set<std::string> seen;
            for (auto& m : j->o) {
                if (badkey(m.first, e)) return false;
                if (reserved.count(m.first)) continue; if (!seen.insert(m.first).second) e.dup = true;
                V* old = mapget(x, m.first); V t = old ? *old : defv(*f.s->e);
                if (!patch(*f.s->e, &m.second, t, e)) { e.path.push_back(m.first); return false; }
                mapput(x, m.first, std::move(t), true);
            }
            continue;
        }
        if (f.flags & FLAT) { if (!patch(*f.s, j, x, e)) { e.path.push_back(f.name); return false; } continue; }
        const J* p = look(*j, f); if (!p) continue;
        if (p->t == J::NUL && (f.flags & HASDEF)) { set_def(f, x); continue; }
        if (!patch(*f.s, p, x, e) || !valid(f, x)) { e.path.push_back(f.name); return false; }
    }
    return true;
}
static bool vnull(const Schema& s, const V& v) { return s.k == OPT && v.a.empty(); }
static bool vempty(const Schema& s, const V& v) { return s.k == STR ? v.s.empty() : v.a.empty(); }
static SerRes fields(const Schema& s, const V& v, bool sn, const std::set<std::string>& reserved, J& out)
{
    for (size_t n = 0; n < s.f.size(); ++n) {
        auto& f = s.f[n]; const V& x = v.a[n];
        if (f.flags & SKIPS) continue;
        bool skip = f.flags & EMITNULL ? false : f.flags & SKIPNULL ? vnull(*f.s, x) : sn && vnull(*f.s, x);
        if (!skip && (f.flags & SKIPEMPTY)) skip = vempty(*f.s, x);
        if (skip) continue;
        if (f.flags & EXTRA) {
            for (size_t i = 0; i < x.keys.size(); ++i) {
                if (reserved.count(x.keys[i])) return S_COLLISION;
                if (sn && vnull(*f.s->e, x.a[i])) continue;
                J t; if (ser(*f.s->e, x.a[i], sn, t)) return S_COLLISION; out.add(x.keys[i], std::move(t));
            }
            continue;
        }
        if (f.flags & FLAT) { if (fields(*f.s, x, sn, reserved, out)) return S_COLLISION; continue; }
        J t; if (ser(*f.s, x, sn, t)) return S_COLLISION;
        out.add(f.rename ? f.rename : f.name, std::move(t));
    }
    return S_OK;
}
SerRes ser(const Schema& s, const V& v, bool sn, J& out)
{
    auto seq = [&](auto schema_of) { out = J::arr(); for (size_t i = 0; i < v.a.size(); ++i) { J t; if (ser(*schema_of(i), v.a[i], sn, t)) return S_COLLISION; out.a.push_back(std::move(t)); } return S_OK; };
    switch (s.k) {
    case I8: case I16: case I32: case I64: case PENUM: out = J::integer(v.i); return S_OK;
    case U8: case U16: case U32: case U64: out = v.u > INT64_MAX ? J::big(v.u) : J::integer((int64_t)v.u); return S_OK;
    case BOOL: out = J::boolean(v.i); return S_OK;
    case F32: case F64: out = J::dbl(v.d); out.isf = s.k == F32; return S_OK;
    case STR: out = J::str(v.s); return S_OK;
    case ENUM: { const char* n = "(unknown)"; for (auto& p : s.names) if (p.first == v.i) { n = p.second; break; } out = J::str(n); return S_OK; }
    case ESET: out = J::arr(); for (auto& p : s.e->names) if ((v.u & (uint64_t)p.first) == (uint64_t)p.first) out.a.push_back(J::str(p.second)); return S_OK;
    case SEQ: case FIX: return seq([&](size_t) { return s.e; });
    case TUP: return seq([&](size_t i) { return s.t[i]; });
    case OPT: if (v.a.empty()) { out = J::null(); return S_OK; } return ser(*s.e, v.a[0], sn, out);
    case MAP: out = J::obj(); for (size_t i = 0; i < v.keys.size(); ++i) { if (sn && vnull(*s.e, v.a[i])) continue; J t; if (ser(*s.e, v.a[i], sn, t)) return S_COLLISION; out.add(v.keys[i], std::move(t)); } return S_OK;
    case VIEW: jparse(v.s, out); return S_OK;
    case TICKET: out = J::str("T-" + std::to_string(v.i)); return S_OK;
    case TRIPLE: out = J::arr(); out.a = {J::integer(v.a[0].i), J::str(v.a[1].s), J::null(), v.a[2].a.empty() ? J::null() : J::integer(v.a[2].a[0].i), J::integer((int64_t)v.a[3].u)}; return S_OK;
    case POINT: out = J::obj(); out.add("px", J::integer(v.a[0].i)); out.add("py", J::integer(v.a[1].i)); return S_OK;
    case STRUCT: { std::set<std::string> r; collect(s, r); out = J::obj(); return fields(s, v, sn, r, out); }
    }
    return S_OK;
}
bool veq(const V& x, const V& y)
{
    if (x.k != y.k) return false;
    if (x.k == F32 || x.k == F64) return x.d == y.d || (x.d != x.d && y.d != y.d);
    if (x.i != y.i || x.u != y.u || x.s != y.s || x.keys != y.keys || x.a.size() != y.a.size()) return false;
    for (size_t i = 0; i < x.a.size(); ++i) if (!veq(x.a[i], y.a[i])) return false;
    return true;
}
std::string vtext(const V& v)
{
    char b[48]; std::string r;
    switch (v.k) {
    case STR: case VIEW: return "'" + v.s + "'";
    case F32: case F64: snprintf(b, sizeof b, "%.17g", v.d); return b;
    case U8: case U16: case U32: case U64: case ESET: return std::to_string(v.u);
    case SEQ: case FIX: case TUP: case OPT: case STRUCT: case POINT: case TRIPLE: r = v.k == OPT ? "?" : "["; for (auto& x : v.a) { r += vtext(x); r += ' '; } return r + (v.k == OPT ? "" : "]");
    case MAP: r = "{"; for (size_t i = 0; i < v.keys.size(); ++i) r += v.keys[i] + "=" + vtext(v.a[i]) + " "; return r + "}";
    default: return std::to_string(v.i);
    }
}
bool has_dup(const J& j)
{
    for (auto& x : j.a) if (has_dup(x)) return true;
    for (size_t i = 0; i < j.o.size(); ++i) { if (has_dup(j.o[i].second)) return true; for (size_t k = 0; k < i; ++k) if (j.o[k].first == j.o[i].first) return true; }
    return false;
}
}

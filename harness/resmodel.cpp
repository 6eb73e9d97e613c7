// Reference model and request generator for the resource harness.
#include "resmodel.h"
#include "../sim/simrt.h"
#include <algorithm>
#include <map>
using sim::PROG; using sim::choose;
bool V::operator==(const V& o) const { return i == o.i && p == o.p && s == o.s && c == o.c && k == o.k; }
V::V() = default; V::V(const V&) = default; V::V(V&&) noexcept = default; V& V::operator=(const V&) = default; V& V::operator=(V&&) noexcept = default; V::~V() = default;
struct BadRequest {};

V defv(const Sch* s)
{
    V v;
    if (s->k == STRUCT) for (auto& f : s->f) v.c.push_back(f.has_init ? f.init : defv(f.s));
    if (s->k == ARRAY) for (int i = 0; i < s->n; ++i) v.c.push_back(defv(s->e));
    return v;
}
V deser(const Sch* s, const V& old, const J& j); // value obtained by deserializing j into a variable holding old
V deser_fresh(const Sch* s, const J& j) { return deser(s, defv(s), j); }
const J kNull;
V deser(const Sch* s, const V& old, const J& j)
{
    V v;
    switch (s->k) {
    case INT: if (j.t != J::INT || j.i < INT32_MIN || j.i > INT32_MAX) throw BadRequest{}; v.i = j.i; return v;
    case BOOL: if (j.t != J::BOOL) throw BadRequest{}; v.i = j.i; return v;
    case STR: if (j.t != J::STR) throw BadRequest{}; v.s = j.s; return v;
    case OPT: if (j.t == J::NUL) return v; v.p = true; v.c.push_back(deser_fresh(s->e, j)); return v;
    case VEC: if (j.t != J::ARR) throw BadRequest{}; for (auto& e : j.a) v.c.push_back(deser_fresh(s->e, e)); return v;
    case ARRAY: if (j.t != J::ARR || (int)j.a.size() > s->n) throw BadRequest{};
        for (int i = 0; i < s->n; ++i) v.c.push_back(deser(s->e, old.c[i], i < (int)j.a.size() ? j.a[i] : kNull)); return v;
    case MAP: { if (j.t != J::OBJ) throw BadRequest{};
        std::map<std::string, V> m; for (auto& e : j.o) { V x = deser_fresh(s->e, e.second); m.emplace(e.first, std::move(x)); }
        for (auto& e : m) { v.k.push_back(e.first); v.c.push_back(e.second); } return v; }
    case STRUCT:
        if (j.t == J::OBJ) {
            for (size_t i = 0; i < s->f.size(); ++i) {
                const Fld& f = s->f[i]; const J* m = j.find(f.name);
                for (auto& a : f.aliases) if (!m) m = j.find(a);
                if (!m) { v.c.push_back(f.has_def ? f.def : f.allow_missing ? old.c[i] : deser(f.s, old.c[i], kNull)); continue; }
                v.c.push_back(m->t == J::NUL && f.has_def ? f.def : deser(f.s, old.c[i], *m));
            }
            return v;
        }
        if (j.t == J::ARR) {
            if (j.a.size() > s->f.size()) throw BadRequest{};
            for (size_t i = 0; i < s->f.size(); ++i) v.c.push_back(deser(s->f[i].s, old.c[i], i < j.a.size() ? j.a[i] : kNull));
            return v;
        }
        throw BadRequest{};
    }
    throw BadRequest{};
}
V patchv(const Sch* s, const V& old, const J& j)
{
    if (s->k == STRUCT && j.t == J::OBJ) {
        V v = old;
        for (size_t i = 0; i < s->f.size(); ++i) {
            const Fld& f = s->f[i]; const J* m = j.find(f.name);
            for (auto& a : f.aliases) if (!m) m = j.find(a);
            if (!m) continue;
            v.c[i] = m->t == J::NUL && f.has_def ? f.def : patchv(f.s, old.c[i], *m);
        }
        return v;
    }
    if (s->k == OPT) { V v; if (j.t == J::NUL) return v; v.p = true; v.c.push_back(patchv(s->e, old.p ? old.c[0] : defv(s->e), j)); return v; }
    return deser(s, old, j);
}
J tojson(const Sch* s, const V& v)
{
    switch (s->k) {
    case INT: return J::integer(v.i);
    case BOOL: return J::boolean(v.i != 0);
    case STR: return J::str(v.s);
    case OPT: return v.p ? tojson(s->e, v.c[0]) : J::null();
    case VEC: case ARRAY: { J j = J::arr(); for (auto& e : v.c) j.a.push_back(tojson(s->e, e)); return j; }
    case MAP: { J j = J::obj(); for (size_t i = 0; i < v.c.size(); ++i) j.add(v.k[i], tojson(s->e, v.c[i])); return j; }
    case STRUCT: { J j = J::obj(); for (size_t i = 0; i < v.c.size(); ++i) { if (s->f[i].s->k == OPT && !v.c[i].p) continue; j.add(s->f[i].name, tojson(s->f[i].s, v.c[i])); } return j; }
    }
    return {};
}

// schema objects
static Sch sInt{INT}, sBool{BOOL}, sStr{STR}, sFrag{INT}, sLeaf{STRUCT}, sItem{STRUCT}, sNum{STRUCT}, sHolder{STRUCT}, sNeed{STRUCT}, sSub{STRUCT};
Sch sRoot{STRUCT};
Sch* mk(K k, const Sch* e, int n = 0) { Sch* s = new Sch{k}; s->e = e; s->n = n; s->post = k == VEC; s->indexed = k == VEC || k == ARRAY; return s; }
Fld fl(const char* name, const Sch* s, int ro = 0, int key = -1) { Fld f; f.name = name; f.s = s; f.ro = ro & 1; f.sro = ro & 2; f.key = key; return f; }
Fld am(Fld f) { f.allow_missing = true; return f; }
int fieldno(const char* name) { for (size_t i = 0; i < sRoot.f.size(); ++i) if (sRoot.f[i].name == name) return (int)i; return -1; }
int f_n, f_leaf, f_items, f_im, f_vi, f_lm, f_leaves;
void init_schema()
{
    V one; one.i = 1; V five; five.i = 5; V none; none.s = "none";
    sFrag.validator = 2; sLeaf.validator = 1; sRoot.validator = 3;
    Sch *oInt = mk(OPT, &sInt), *oLeaf = mk(OPT, &sLeaf), *vInt = mk(VEC, &sInt), *vLeaf = mk(VEC, &sLeaf), *mInt = mk(MAP, &sInt), *mLeaf = mk(MAP, &sLeaf), *vItem = mk(VEC, &sItem), *lItem = mk(VEC, &sItem);
    lItem->indexed = false;
    sLeaf.f = {fl("n", &sInt), fl("s", &sStr), fl("b", &sBool), fl("o", oInt)}; sLeaf.f[0].has_init = true; sLeaf.f[0].init = one;
    sItem.f = {fl("id", &sStr), fl("v", &sInt), fl("leaf", &sLeaf), fl("tags", vInt), fl("ol", oLeaf), fl("note", &sStr)};
    sItem.f[1].has_init = true; sItem.f[1].init = five; sItem.f[5].has_def = true; sItem.f[5].def = none;
    sNum.f = {fl("id", &sInt), fl("v", &sStr), fl("m", mInt)};
    sHolder.f = {fl("a", &sInt), fl("f", &sFrag), fl("v", vInt)};
    sNeed.f = {fl("v", &sInt)};
    sSub.f = {fl("a", &sInt), fl("w", &sInt, 1), fl("leaf", &sLeaf), fl("leaves", vLeaf), fl("m", mInt), fl("o", oInt), fl("items", vItem, 0, 0)};
    Sch* oNeed = mk(OPT, &sNeed); oNeed->validator = 4;
    sRoot.f = {fl("n", &sInt), fl("str", &sStr), fl("leaf", &sLeaf), fl("sub", &sSub), fl("oi", oInt), fl("ol", oLeaf), fl("ov", mk(OPT, vInt)), fl("om", mk(OPT, mLeaf)), fl("osub", mk(OPT, &sSub)),
        fl("items", vItem, 0, 0), fl("lst", lItem, 0, 0), fl("nums", mk(VEC, &sNum), 0, 0), fl("leaves", vLeaf), fl("vi", vInt), fl("dq", vInt), fl("vv", mk(VEC, vInt)),
        fl("lm", mLeaf), fl("im", mInt), fl("sm", mk(MAP, &sSub)), fl("arr", mk(ARRAY, &sLeaf, 2)),
        fl("ro", &sSub, 1), fl("sro", &sSub, 2), fl("both", &sSub, 3), fl("roitems", vItem, 1, 0), fl("sroitems", vItem, 2, 0), fl("rol", oLeaf, 1), fl("srol", oLeaf, 2),
        fl("rom", mLeaf, 1), fl("srom", mLeaf, 2), fl("rov", vInt, 1), fl("srov", vInt, 2), fl("bothm", mk(MAP, &sSub), 3),
        am(fl("fr", &sFrag)), am(fl("frs", mk(VEC, &sFrag))), fl("ofr", mk(OPT, &sFrag)), am(fl("frm", mk(MAP, &sFrag))), am(fl("holders", mk(VEC, &sHolder))), am(fl("holder", &sHolder)), fl("need", oNeed)};
    sRoot.f[3].aliases = {"submarine", "s2"};
    f_n = fieldno("n"); f_leaf = fieldno("leaf"); f_items = fieldno("items"); f_im = fieldno("im"); f_vi = fieldno("vi"); f_lm = fieldno("lm"); f_leaves = fieldno("leaves");
}
void validate(const Sch* s, const V& v, int key, std::vector<std::string>& out)
{
    if (s->validator == 1 && v.c[0].i > 900) out.push_back("leaf n too large");
    if (s->validator == 2 && v.i > 900) out.push_back("fragile too large");
    if (s->validator == 4 && !v.p) out.push_back("need is required");
    if (s->validator == 3) {
        if (v.c[f_n].i + v.c[f_leaf].c[0].i > 1000) out.push_back("sum too large");
        if (v.c[f_items].c.size() > 5) out.push_back("too many items");
        if (v.c[f_im].c.size() < v.c[f_vi].c.size() && v.c[f_vi].c.size() > 3) out.push_back("more numbers than entries");
        if (v.c[f_lm].c.empty() && !v.c[f_leaves].c.empty()) out.push_back("leaves without entries");
    }
    if (key >= 0) for (size_t i = 0; i < v.c.size(); ++i) for (size_t k = i + 1; k < v.c.size(); ++k) if (v.c[i].c[key] == v.c[k].c[key]) { out.push_back("duplicate child key"); i = v.c.size(); break; }
    if (s->k == STRUCT) for (size_t i = 0; i < v.c.size(); ++i) validate(s->f[i].s, v.c[i], s->f[i].key, out);
    else for (auto& c : v.c) validate(s->e, c, -1, out);
}
struct Node { V* v; const Sch* s; bool ro, sro; int coll_key, elem_key; };
struct Acc { bool sro = false, nro = false; };
struct NotFound {};
bool parse_index(const std::string& t, size_t& out)
{
    if (t.empty()) return false;
    unsigned __int128 v = 0; for (char c : t) { if (c < '0' || c > '9') return false; v = v * 10 + (unsigned)(c - '0'); if (v > UINT64_MAX) return false; }
    out = (size_t)v; return true;
}
bool key_is(const Node& coll, const V& elem, const std::string& seg)
{
    const V& k = elem.c[coll.coll_key]; const Sch* ks = coll.s->e->f[coll.coll_key].s;
    return ks->k == INT ? std::to_string(k.i) == seg : k.s == seg;
}
bool loose(const std::string& t) { return t.size() > 1 && t[0] == '0'; }
// at: the same path with every position in its one plain spelling
Node resolve(V& root, const Segs& p, size_t stop, Acc& a, Segs& at, bool& lax)
{
    at = p; lax = false;
    Node n{&root, &sRoot, false, false, -1, -1}; size_t i = 0;
    while (p.size() - i != stop) {
        const std::string& seg = p[i];
        if (n.s->k == STRUCT) {
            int f = -1; for (size_t x = 0; x < n.s->f.size(); ++x) if (n.s->f[x].name == seg) { f = (int)x; break; }
            if (f < 0) throw NotFound{};
            a.sro |= n.sro; a.nro |= n.elem_key == f;
            const Fld& F = n.s->f[f]; n = Node{&n.v->c[f], F.s, F.ro, F.sro, F.key, -1}; ++i;
        } else if (n.s->k == OPT) {
            if (!n.v->p) throw NotFound{};
            a.sro |= n.sro; n = Node{&n.v->c[0], n.s->e, false, false, -1, -1};
        } else if (n.s->k == MAP) {
            a.sro |= n.sro; auto it = std::find(n.v->k.begin(), n.v->k.end(), seg); if (it == n.v->k.end()) throw NotFound{};
            n = Node{&n.v->c[it - n.v->k.begin()], n.s->e, false, false, -1, -1}; ++i;
        } else if (n.coll_key >= 0) {
            a.sro |= n.sro; int f = -1; for (size_t x = 0; x < n.v->c.size(); ++x) if (key_is(n, n.v->c[x], seg)) { f = (int)x; break; }
            if (f < 0) throw NotFound{};
            int ck = n.coll_key; n = Node{&n.v->c[f], n.s->e, false, false, -1, ck}; ++i;
        } else if (n.s->indexed) {
            size_t ix; if (!parse_index(seg, ix)) throw NotFound{};
            if (loose(seg)) { lax = true; at[i] = std::to_string(ix); }
            a.sro |= n.sro; if (ix >= n.v->c.size()) throw NotFound{};
            n = Node{&n.v->c[ix], n.s->e, false, false, -1, -1}; ++i;
        } else throw NotFound{};
    }
    return n;
}
Node resolve(V& root, const Segs& p, size_t stop, Acc& a) { Segs at; bool lax; return resolve(root, p, stop, a, at, lax); }
bool node_ro(const Node& n, const Acc& a) { return n.ro || a.sro || a.nro; }
bool child_ro(const Node& n, const Acc& a) { return node_ro(n, a) || n.sro; }

const char* kVerb[] = {"GET", "PUT", "POST", "PATCH", "DELETE"};

// Applies a request to the model document; throws nothing.
Outcome apply(V& root, Verb verb, const Segs& p, const J& body)
{
    Outcome o; V before = root; Segs at;
    auto fail = [&](int st) { root = before; o.status = st; o.changed = false; return o; };
    auto ro = [&]() { o.ro_refused = true; return fail(405); };
    auto finish = [&](int st, Segs at) {
        validate(&sRoot, root, -1, o.msgs);
        if (!o.msgs.empty()) return fail(409);
        o.status = st; o.changed = true; o.at = std::move(at); return o;
    };
    try {
        if (verb == GET) { Acc a; Node n = resolve(root, p, 0, a, at, o.loose); o.status = 200; o.body = tojson(n.s, *n.v); return o; }
        if (verb == PUT || verb == PATCH) {
            Acc a; Node n = resolve(root, p, 0, a, at, o.loose);
            if (node_ro(n, a)) return ro();
            V c = verb == PUT ? deser(n.s, *n.v, body) : patchv(n.s, *n.v, body);
            if (n.elem_key >= 0 && !(c.c[n.elem_key] == n.v->c[n.elem_key])) return ro();
            *n.v = c; return finish(200, at);
        }
        if (verb == POST) {
            Acc a; Node n = resolve(root, p, 0, a, at, o.loose);
            if (child_ro(n, a)) return ro();
            if (n.s->k != VEC || !n.s->post) return fail(405);
            V c = deser_fresh(n.s->e, body);
            n.v->c.push_back(c);
            if (n.coll_key >= 0) for (size_t i = 0; i + 1 < n.v->c.size(); ++i) if (n.v->c[i].c[n.coll_key] == c.c[n.coll_key]) { o.msgs = {"duplicate child key"}; }
            // the element's own validators are asked first, then the whole document: any of them may object
            return finish(201, at);
        }
        // DELETE
        if (!p.empty()) {
            Acc a; Node n = resolve(root, p, 1, a, at, o.loose); const std::string& seg = p.back(); Segs parent(at.begin(), at.end() - 1);
            if (n.s->k == MAP) {
                auto it = std::find(n.v->k.begin(), n.v->k.end(), seg); if (it == n.v->k.end()) return fail(404);
                if (child_ro(n, a)) return ro();
                size_t x = it - n.v->k.begin(); n.v->k.erase(it); n.v->c.erase(n.v->c.begin() + (long)x); return finish(204, parent);
            }
            if (n.coll_key >= 0) {
                for (size_t x = 0; x < n.v->c.size(); ++x) if (key_is(n, n.v->c[x], seg)) {
                    if (child_ro(n, a)) return ro();
                    n.v->c.erase(n.v->c.begin() + (long)x); return finish(204, parent); }
                return fail(404);
            }
            if (n.s->indexed) {
                size_t ix; if (!parse_index(seg, ix)) return fail(404);
                o.loose |= loose(seg);
                if (child_ro(n, a)) return ro();
                if (n.s->k == ARRAY) return fail(405);
                if (ix >= n.v->c.size()) return fail(404);
                n.v->c.erase(n.v->c.begin() + (long)ix); return finish(204, parent);
            }
        }
        Acc a; Node n = resolve(root, p, 0, a, at, o.loose);
        if (node_ro(n, a)) return ro();
        if (n.s->k != OPT) return fail(405);
        *n.v = V{}; return finish(204, at);
    } catch (const NotFound&) { return fail(404); }
    catch (const BadRequest&) { return fail(400); }
}

// ------------------------------------------------------------------------------------------ generators
const char* kKeys[] = {"a", "b", "c", "key with space", "%", "ab", "..", "\xc3\xa9", "0", "a.b"};
std::string gen_key() { return kKeys[choose(PROG, 10)]; }
std::string gen_str() { static const char* S[] = {"", "x", "hello world, this is a long string beyond the small buffer", "q\"\\\n", "\xe2\x82\xac", std::string("z").c_str()}; uint32_t c = choose(PROG, 6); return c == 5 ? std::string("nul\0in", 6) : S[c]; }
int64_t gen_int() { static const int64_t I[] = {0, 1, 2, 7, -1, 100, 850, 901, 1500, 2147483647, -2147483648LL}; return I[choose(PROG, 11)]; }
// a body for schema s; wild: how often (of 64) a part is ill-typed
J gen_body(const Sch* s, int wild, int depth, bool patch)
{
    if (wild && (int)choose(PROG, 64) >= 64 - wild) {
        switch (choose(PROG, 8)) { case 0: return J::null(); case 1: return J::integer(gen_int()); case 2: return J::str(gen_str()); case 3: return J::boolean(true); case 4: return J::arr(); case 5: return J::obj(); case 6: return J::dbl(1.5); default: return J::integer(2147483648LL); }
    }
    switch (s->k) {
    case INT: return J::integer(gen_int());
    case BOOL: return J::boolean(choose(PROG, 2) == 1);
    case STR: return J::str(choose(PROG, 2) ? gen_str() : gen_key());
    case OPT: return choose(PROG, 3) == 2 ? J::null() : gen_body(s->e, wild, depth + 1, patch);
    case VEC: { J j = J::arr(); int n = (int)choose(PROG, depth > 1 ? 3 : 5); for (int i = 0; i < n; ++i) j.a.push_back(gen_body(s->e, wild, depth + 1, false)); return j; }
    case ARRAY: { J j = J::arr(); int n = choose(PROG, 6) == 5 ? (int)choose(PROG, (uint32_t)s->n + 2) : s->n; for (int i = 0; i < n; ++i) j.a.push_back(gen_body(s->e, wild, depth + 1, false)); return j; }
    case MAP: { J j = J::obj(); int n = (int)choose(PROG, depth > 1 ? 3 : 5); for (int i = 0; i < n; ++i) j.add(gen_key(), gen_body(s->e, wild, depth + 1, false)); return j; }
    case STRUCT: {
        bool aseq = !patch && choose(PROG, 12) == 11;
        J j = aseq ? J::arr() : J::obj();
        for (auto& f : s->f) {
            if (patch && s->f.size() > 2 && choose(PROG, (uint32_t)std::min<size_t>(s->f.size(), 8)) != 0) continue;
            if (!patch && !aseq && wild && choose(PROG, 40) == 39) continue;
            if (!aseq && f.has_def && choose(PROG, 2)) { if (choose(PROG, 2)) j.add(f.name, J::null()); continue; }
            if (!aseq && f.allow_missing && choose(PROG, 2)) continue;
            J b = gen_body(f.s, wild, depth + 1, patch);
            if (aseq) j.a.push_back(b); else j.add(f.aliases.empty() || choose(PROG, 4) < 3 ? f.name : f.aliases[choose(PROG, (uint32_t)f.aliases.size())], b);
        }
        if (!aseq && choose(PROG, 10) == 9) j.add("unknown", J::integer(3));
        return j; }
    }
    return {};
}
// a legal document used as initial content
V gen_value(const Sch* s, int key, int depth)
{
    V v;
    switch (s->k) {
    case INT: v.i = (int64_t)choose(PROG, 300); return v;
    case BOOL: v.i = choose(PROG, 2); return v;
    case STR: v.s = gen_str(); return v;
    case OPT: if (s->validator == 4 || choose(PROG, 3)) { v.p = true; v.c.push_back(gen_value(s->e, -1, depth + 1)); } return v;
    case VEC: { int n = (int)choose(PROG, depth > 1 ? 3 : 4);
        for (int i = 0; i < n; ++i) { V e = gen_value(s->e, -1, depth + 1); if (key >= 0) { if (s->e->f[key].s->k == INT) e.c[key].i = i * 3 + 1; else e.c[key].s = kKeys[i]; } v.c.push_back(e); } return v; }
    case ARRAY: for (int i = 0; i < s->n; ++i) v.c.push_back(gen_value(s->e, -1, depth + 1)); return v;
    case MAP: { int n = (int)choose(PROG, depth > 1 ? 3 : 4); std::map<std::string, V> m; for (int i = 0; i < n; ++i) m.emplace(kKeys[i], gen_value(s->e, -1, depth + 1)); for (auto& e : m) { v.k.push_back(e.first); v.c.push_back(e.second); } return v; }
    case STRUCT: for (auto& f : s->f) v.c.push_back(gen_value(f.s, f.key, depth + 1)); return v;
    }
    return v;
}
// random schema-addressable path, biased to what exists in the document; full: whether to descend until a scalar
Segs gen_path(const V& root, bool watch)
{
    Segs p; const Sch* s = &sRoot; const V* v = &root; int key = -1; uint32_t depth = 1 + choose(PROG, 4); if (choose(PROG, 16) == 15) depth = 0;
    while (p.size() < depth) {
        if (s->k == OPT) { s = s->e; v = v && v->p ? &v->c[0] : nullptr; key = -1; continue; }
        if (s->k == STRUCT) { uint32_t f = choose(PROG, (uint32_t)s->f.size()); p.push_back(s->f[f].name); v = v ? &v->c[f] : nullptr; key = s->f[f].key; s = s->f[f].s; continue; }
        if (s->k == MAP) { if (v && !v->c.empty() && choose(PROG, 8) < 7) { uint32_t x = choose(PROG, (uint32_t)v->c.size()); p.push_back(v->k[x]); v = &v->c[x]; } else { p.push_back(gen_key()); v = nullptr; } s = s->e; key = -1; continue; }
        if (s->k == VEC && key >= 0) { if (v && !v->c.empty() && choose(PROG, 8) < 7) { uint32_t x = choose(PROG, (uint32_t)v->c.size()); const V& kv = v->c[x].c[key]; p.push_back(s->e->f[key].s->k == INT ? std::to_string(kv.i) : kv.s); v = &v->c[x]; } else { p.push_back(gen_key()); v = nullptr; } s = s->e; key = -1; continue; }
        if ((s->k == VEC || s->k == ARRAY) && s->indexed) {
            uint32_t c = choose(PROG, 12);
            if (c >= 10 && !watch) { static const char* B[] = {"+1", "-1", "1x", "99999999999999999999", "", "00", " 1", "18446744073709551616"}; const char* t = B[choose(PROG, 8)];
                if (c == 11) { uint32_t x = choose(PROG, v ? (uint32_t)v->c.size() + 1 : 2); p.push_back((*t == '0' ? "00" : "0") + std::to_string(x)); v = v && x < v->c.size() ? &v->c[x] : nullptr; } // a second spelling of a position
                else { p.push_back(*t ? t : "3"); v = nullptr; } }
            else { uint32_t x = choose(PROG, v ? (uint32_t)v->c.size() + 1 : 2); p.push_back(std::to_string(x)); v = v && x < v->c.size() ? &v->c[x] : nullptr; }
            s = s->e; key = -1; continue; }
        if (!watch && choose(PROG, 10) == 9) { p.push_back("x"); }
        break;
    }
    for (auto& x : p) if (x.empty() || x.find('/') != std::string::npos) x = "zz";
    return p;
}
std::string path_text(const Segs& p)
{
    std::string t; uint32_t style = choose(PROG, 4);
    for (auto& s : p) {
        if (!t.empty() || style != 1) t += '/';
        if (style == 2 && choose(PROG, 6) == 5) t += "./"; if (style == 2 && choose(PROG, 6) == 5) t += "/"; if (style == 2 && choose(PROG, 6) == 5) t += "foo/../";
        bool all = style == 3;
        for (unsigned char c : s) { char b[4]; if (all || c <= 32 || c >= 127 || c == '%' || (s == "." || s == "..")) { snprintf(b, sizeof b, choose(PROG, 2) ? "%%%02x" : "%%%02X", c); t += b; } else t += (char)c; }
    }
    if (style == 2 && choose(PROG, 4) == 3) t += '/';
    return t;
}
// independent reading of a path text; false: malformed
bool read_path(std::string t, Segs& out)
{
    out.clear(); size_t i = 0; std::string cur; auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for (;; ++i) {
        if (i < t.size() && t[i] != '/') { cur += t[i]; continue; }
        if (cur == "..") { if (!out.empty()) out.pop_back(); }
        else if (!cur.empty() && cur != ".") {
            std::string d; for (size_t k = 0; k < cur.size(); ++k) { if (cur[k] != '%') { d += cur[k]; continue; } if (k + 2 >= cur.size() || hex(cur[k + 1]) < 0 || hex(cur[k + 2]) < 0) return false; d += (char)(hex(cur[k + 1]) * 16 + hex(cur[k + 2])); if (d.back() == '/') return false; k += 2; }
            out.push_back(d);
        }
        cur.clear(); if (i >= t.size()) break;
    }
    return true;
}

std::string diff(const Sch* s, const V& a, const V& b, std::string at)
{
    if (a == b) return "";
    if (s->k == STRUCT) for (size_t i = 0; i < s->f.size(); ++i) { std::string d = diff(s->f[i].s, a.c[i], b.c[i], at + "/" + s->f[i].name); if (!d.empty()) return d; }
    if (a.c.size() == b.c.size() && a.k == b.k && s->k != STRUCT && s->e) for (size_t i = 0; i < a.c.size(); ++i) { std::string d = diff(s->e, a.c[i], b.c[i], at + "/" + (s->k == MAP ? a.k[i] : std::to_string(i))); if (!d.empty()) return d; }
    return at + ": is " + jtext(tojson(s, a)) + ", expected " + jtext(tojson(s, b));
}
Msg gen_msg(const V& model, int id)
{
    Msg m; m.id = id; static const Verb VB[] = {PUT, PATCH, POST, DEL, GET, PUT, PATCH, DEL, POST, PUT}; m.verb = VB[choose(PROG, 10)];
    Segs p = gen_path(model, false);
    // steer towards interesting targets: collections for POST, children and optionals for DELETE
    for (int i = 0; i < 3; ++i) {
        Acc a; bool ok = false;
        try { V v = model; if (m.verb == POST) { Node n = resolve(v, p, 0, a); ok = n.s->k == VEC; } else if (m.verb == DEL) { if (!p.empty()) { Node n = resolve(v, p, 1, a); ok = n.s->k != STRUCT; } if (!ok) { Acc b; Node n = resolve(v, p, 0, b); ok = n.s->k == OPT; } } else { resolve(v, p, 0, a); ok = true; } } catch (const NotFound&) {}
        if (ok || choose(PROG, 8) == 7) break;
        p = gen_path(model, false);
    }
    m.path = path_text(p);
    if (m.verb == PUT || m.verb == POST || m.verb == PATCH) {
        int wild = choose(PROG, 4) == 3 ? 6 : 0; J b;
        try {
            V v = model; Acc a; Node n = resolve(v, p, 0, a); const Sch* s = n.s;
            if (m.verb == POST) b = s->k == VEC ? gen_body(s->e, wild, 0, false) : J::obj();
            else if (choose(PROG, 4) == 3 && s->k != INT) { // current content, slightly changed
                V nv = *n.v; if (s->k == STRUCT && !nv.c.empty()) { uint32_t f = choose(PROG, (uint32_t)s->f.size()); b = tojson(s, nv); J part = gen_body(s->f[f].s, wild, 1, m.verb == PATCH); bool done = false; for (auto& e : b.o) if (e.first == s->f[f].name) { e.second = part; done = true; } if (!done) b.add(s->f[f].name, part); } else b = tojson(s, nv); }
            else { b = gen_body(s, wild, p.empty() ? 1 : 0, m.verb == PATCH);
                if (n.elem_key >= 0 && b.t == J::OBJ && choose(PROG, 4)) { const std::string& kn = s->f[n.elem_key].name; J kv = tojson(s->f[n.elem_key].s, n.v->c[n.elem_key]); bool done = false; for (auto& e : b.o) if (e.first == kn) { e.second = kv; done = true; } if (!done && m.verb == PUT) b.add(kn, kv); } }
        } catch (const NotFound&) { b = gen_body(&sLeaf, 6, 0, false); }
        m.body = jtext(b);
    }
    return m;
}


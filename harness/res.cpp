// Simulation harness for kl::resources (R01..R04): a server holding one resource, clients whose requests travel
// over an unreliable transport (lost, duplicated, reordered, damaged), memory that runs out inside requests, user
// code (copies, conversions, validators) that throws, and watchers remembering generations.
// Real code: resource.hpp, resource_op.hpp, path.hpp/.cpp, json.hpp/.cpp, serialization*, ctti.hpp. Stub: transport, allocator.
#include "../sim/simrt.h"
#include "resmodel.h"
#include "damage.h"
#include <kl/json.hpp>
#include <kl/path.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/resource.hpp>
#include <kl/resource_attributes.hpp>
#include <kl/resource_op.hpp>
#include <kl/serialization_attributes.hpp>
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <unordered_map>
#include <vector>

using sim::HarnessScope; using sim::SutScope; using sim::PROG; using sim::FAULT; using sim::SCHED; using sim::choose;

namespace user {
namespace attr = kl::resources::attributes;
namespace ser = kl::serialization::attributes;

struct UserFault { int site; };
struct Inject { uint32_t left = 0; bool fired = false; uint32_t calls = 0; };
thread_local Inject g_inj;
inline void may_throw(int site)
{
    bool t = false;
    // never during stack unwinding: a copy that throws while another exception is being handled ends the process by the rules of the language
    { HarnessScope h; ++g_inj.calls; if (g_inj.left && !std::uncaught_exceptions() && --g_inj.left == 0) { g_inj.fired = true; t = true; static const char* N[] = {"copy-throws", "assignment-throws", "conversion-throws", "validator-throws"}; sim::fault_fired(N[site]); } }
    sim::yield_point(60 + site);
    if (t) throw UserFault{site};
}
struct Ctx : kl::json::deserialize_context { int dummy = 0; };

struct Leaf {
    int n = 1; std::string s; bool b; std::optional<int> o;
    void validate_resource(Ctx&) const { may_throw(3); if (n > 900) throw kl::resources::validation_error{"leaf n too large"}; }
};
KL_REFLECT_STRUCT(Leaf, n, s, b, o)

struct Item {
    std::string id; int v = 5; Leaf leaf; std::vector<int> tags; std::optional<Leaf> ol; std::string note;
};
KL_REFLECT_STRUCT(Item, id, v, leaf, tags, ol, (note, ser::default_value("none")))

struct Num { int id; std::string v; std::map<std::string, int> m; };
KL_REFLECT_STRUCT(Num, id, v, m)
inline bool resource_key_matches(const Num&, int key, std::string_view seg)
{
    char b[16]; int n = snprintf(b, sizeof b, "%d", key);
    return std::string_view(b, (size_t)n) == seg;
}

struct Fragile {
    int v = 0;
    Fragile() = default;
    Fragile(const Fragile& o) { may_throw(0); v = o.v; }
    Fragile& operator=(const Fragile& o) { v = -77; may_throw(1); v = o.v; return *this; }
};
template <typename Context> void dump_adl(kl::json::stream_tag, const Fragile& f, Context& ctx) { ctx.writer().Int(f.v); }
template <typename Context> rapidjson::Value serialize_adl(kl::json::tree_tag, const Fragile& f, Context&) { return rapidjson::Value{f.v}; }
template <typename Context> void deserialize_adl(kl::json::tree_tag, Fragile& f, const rapidjson::Value& v, Context& ctx)
{
    f.v = -99; may_throw(2); int x; kl::json::deserialize(x, v, ctx); f.v = x;
}
template <typename Context> void patch_adl(kl::json::tree_tag, Fragile& f, const rapidjson::Value& v, Context& ctx) { int x; may_throw(2); kl::json::deserialize(x, v, ctx); f.v = x; }
template <typename Context> void validate_resource(Fragile& f, Context&) { may_throw(3); if (f.v > 900) throw kl::resources::validation_error{"fragile too large"}; }

struct Holder { int a; Fragile f; std::vector<int> v; };
KL_REFLECT_STRUCT(Holder, a, f, v)

struct Need { int v; };
KL_REFLECT_STRUCT(Need, v)
inline void validate_resource(const std::optional<Need>& o, Ctx&) { may_throw(3); if (!o) throw kl::resources::validation_error{"need is required"}; }

struct Sub {
    int a; int w; Leaf leaf; std::vector<Leaf> leaves; std::map<std::string, int> m; std::optional<int> o; std::vector<Item> items;
};
KL_REFLECT_STRUCT(Sub, a, (w, attr::read_only), leaf, leaves, m, o, (items, attr::child_key<&Item::id>))

struct Root {
    int n; std::string s; Leaf leaf; Sub sub;
    std::optional<int> oi; std::optional<Leaf> ol; std::optional<std::vector<int>> ov; std::optional<std::map<std::string, Leaf>> om; std::optional<Sub> osub;
    std::vector<Item> items; std::list<Item> lst; std::vector<Num> nums;
    std::vector<Leaf> leaves; std::vector<int> vi; std::deque<int> dq; std::vector<std::vector<int>> vv;
    std::map<std::string, Leaf, std::less<>> lm; std::map<std::string, int> im; std::unordered_map<std::string, Sub> sm; std::array<Leaf, 2> arr;
    Sub ro; Sub sro; Sub both;
    std::vector<Item> roitems; std::vector<Item> sroitems; std::optional<Leaf> rol; std::optional<Leaf> srol;
    std::map<std::string, Leaf> rom; std::map<std::string, Leaf> srom; std::vector<int> rov; std::vector<int> srov; std::map<std::string, Sub> bothm;
    Fragile fr; std::vector<Fragile> frs; std::optional<Fragile> ofr; std::map<std::string, Fragile> frm; std::vector<Holder> holders; Holder holder;
    std::optional<Need> need;
    void validate_resource(Ctx&) const
    {
        may_throw(3);
        if ((long long)n + leaf.n > 1000) throw kl::resources::validation_error{"sum too large"};
        if (items.size() > 5) throw kl::resources::validation_error{"too many items"};
        if (im.size() < vi.size() && vi.size() > 3) throw kl::resources::validation_error{"more numbers than entries"};
        if (lm.empty() && !leaves.empty()) throw kl::resources::validation_error{"leaves without entries"};
    }
};
KL_REFLECT_STRUCT(Root, n, (s, ser::rename("str")), leaf, (sub, ser::aliases("submarine", "s2")), oi, ol, ov, om, osub,
    (items, attr::child_key<&Item::id>), (lst, attr::child_key<&Item::id>), (nums, attr::child_key<&Num::id>),
    leaves, vi, dq, vv, lm, im, sm, arr,
    (ro, attr::read_only), (sro, attr::subtree_read_only), (both, attr::read_only, attr::subtree_read_only),
    (roitems, attr::child_key<&Item::id>, attr::read_only), (sroitems, attr::subtree_read_only, attr::child_key<&Item::id>),
    (rol, attr::read_only), (srol, attr::subtree_read_only), (rom, attr::read_only), (srom, attr::subtree_read_only), (rov, attr::read_only), (srov, attr::subtree_read_only),
    (bothm, attr::read_only, attr::subtree_read_only),
    (fr, ser::allow_missing), (frs, ser::allow_missing), ofr, (frm, ser::allow_missing), (holders, ser::allow_missing), (holder, ser::allow_missing), need)
} // namespace user
using namespace user;

namespace {
// ------------------------------------------------------------------------------------------ real value -> model value
V tov(int x) { V v; v.i = x; return v; }
V tov(bool x) { V v; v.i = x; return v; }
V tov(const std::string& x) { V v; v.s.assign(x.data(), x.size()); return v; }
V tov(const Fragile& x) { V v; v.i = x.v; return v; }
V tov(const Leaf& x); V tov(const Item& x); V tov(const Num& x); V tov(const Holder& x); V tov(const Need& x); V tov(const Sub& x);
template <typename T> V tov(const std::optional<T>& x); template <typename T> V tov(const std::vector<T>& x); template <typename T, typename L> V tov(const std::map<std::string, T, L>& x); template <typename T> V tov(const std::unordered_map<std::string, T>& x);
template <typename T> V tov(const std::optional<T>& x) { V v; v.p = x.has_value(); if (x) v.c.push_back(tov(*x)); return v; }
template <typename C> V seq(const C& x) { V v; for (auto& e : x) v.c.push_back(tov(e)); return v; }
template <typename T> V tov(const std::vector<T>& x) { return seq(x); }
template <typename T> V tov(const std::list<T>& x) { return seq(x); }
template <typename T> V tov(const std::deque<T>& x) { return seq(x); }
template <typename T, size_t N> V tov(const std::array<T, N>& x) { return seq(x); }
template <typename C> V mapv(const C& x) { std::map<std::string, V> m; for (auto& e : x) m.emplace(std::string(e.first.data(), e.first.size()), tov(e.second)); V v; for (auto& e : m) { v.k.push_back(e.first); v.c.push_back(e.second); } return v; }
template <typename T, typename L> V tov(const std::map<std::string, T, L>& x) { return mapv(x); }
template <typename T> V tov(const std::unordered_map<std::string, T>& x) { return mapv(x); }
template <typename... A> V st(const A&... a) { V v; (v.c.push_back(tov(a)), ...); return v; }
V tov(const Leaf& x) { return st(x.n, x.s, x.b, x.o); }
V tov(const Item& x) { return st(x.id, x.v, x.leaf, x.tags, x.ol, x.note); }
V tov(const Num& x) { return st(x.id, x.v, x.m); }
V tov(const Holder& x) { return st(x.a, x.f, x.v); }
V tov(const Need& x) { return st(x.v); }
V tov(const Sub& x) { return st(x.a, x.w, x.leaf, x.leaves, x.m, x.o, x.items); }
V tov(const Root& x) { return st(x.n, x.s, x.leaf, x.sub, x.oi, x.ol, x.ov, x.om, x.osub, x.items, x.lst, x.nums, x.leaves, x.vi, x.dq, x.vv, x.lm, x.im, x.sm, x.arr, x.ro, x.sro, x.both, x.roitems, x.sroitems,
    x.rol, x.srol, x.rom, x.srom, x.rov, x.srov, x.bothm, x.fr, x.frs, x.ofr, x.frm, x.holders, x.holder, x.need); }

// model value -> real value (plain assignments, no code under test)
void put(const V& v, int& x) { x = (int)v.i; }
void put(const V& v, bool& x) { x = v.i != 0; }
void put(const V& v, std::string& x) { x.assign(v.s.data(), v.s.size()); }
void put(const V& v, Fragile& x) { x.v = (int)v.i; }
void put(const V& v, Leaf& x); void put(const V& v, Item& x); void put(const V& v, Num& x); void put(const V& v, Holder& x); void put(const V& v, Need& x); void put(const V& v, Sub& x);
template <typename T> void put(const V& v, std::vector<T>& x); template <typename T, typename L> void put(const V& v, std::map<std::string, T, L>& x);
template <typename T> void put(const V& v, std::optional<T>& x) { x.reset(); if (v.p) { x.emplace(); put(v.c[0], *x); } }
template <typename C> void putseq(const V& v, C& x) { x.clear(); for (auto& e : v.c) { x.emplace_back(); put(e, x.back()); } }
template <typename T> void put(const V& v, std::vector<T>& x) { putseq(v, x); }
template <typename T> void put(const V& v, std::list<T>& x) { putseq(v, x); }
template <typename T> void put(const V& v, std::deque<T>& x) { putseq(v, x); }
template <typename T, size_t N> void put(const V& v, std::array<T, N>& x) { for (size_t i = 0; i < N; ++i) put(v.c[i], x[i]); }
template <typename T, typename L> void put(const V& v, std::map<std::string, T, L>& x) { x.clear(); for (size_t i = 0; i < v.c.size(); ++i) put(v.c[i], x[v.k[i]]); }
template <typename T> void put(const V& v, std::unordered_map<std::string, T>& x) { x.clear(); for (size_t i = 0; i < v.c.size(); ++i) put(v.c[i], x[v.k[i]]); }
template <typename... A> void unst(const V& v, A&... a) { size_t i = 0; (put(v.c[i++], a), ...); }
void put(const V& v, Leaf& x) { unst(v, x.n, x.s, x.b, x.o); }
void put(const V& v, Item& x) { unst(v, x.id, x.v, x.leaf, x.tags, x.ol, x.note); }
void put(const V& v, Num& x) { unst(v, x.id, x.v, x.m); }
void put(const V& v, Holder& x) { unst(v, x.a, x.f, x.v); }
void put(const V& v, Need& x) { unst(v, x.v); }
void put(const V& v, Sub& x) { unst(v, x.a, x.w, x.leaf, x.leaves, x.m, x.o, x.items); }
void put(const V& v, Root& x) { unst(v, x.n, x.s, x.leaf, x.sub, x.oi, x.ol, x.ov, x.om, x.osub, x.items, x.lst, x.nums, x.leaves, x.vi, x.dq, x.vv, x.lm, x.im, x.sm, x.arr, x.ro, x.sro, x.both, x.roitems, x.sroitems,
    x.rol, x.srol, x.rom, x.srom, x.rov, x.srov, x.bothm, x.fr, x.frs, x.ofr, x.frm, x.holders, x.holder, x.need); }

// ------------------------------------------------------------------------------------------ the simulated system
using Res = kl::resources::resource<Root>;
using Gen = kl::resources::modification_tracker::generation;
struct Update { Segs at; bool subtree; Gen gen; };
struct World {
    Res* r; V model; std::vector<Update> log; Gen initial; Ctx* ctx; kl::path* reused;
    std::vector<Segs> watch; std::vector<Gen> remembered; int msgs = 0; bool faulted = false;
};
thread_local World* W;
bool g_conc; // R05: several threads
#define VIOL(p, ...) sim::violation(g_conc ? "R05" : (p), __VA_ARGS__)
bool is_prefix(const Segs& a, const Segs& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
std::string show(const Segs& p) { std::string s; for (auto& x : p) s += "/" + x; return s.empty() ? "/" : s; }
std::string enc(const Segs& p) { std::string s; for (auto& x : p) { s += "/"; for (unsigned char c : x) { char b[4]; snprintf(b, sizeof b, "%%%02x", c); s += b; } } return s; }
Gen model_changed_at(const Segs& p) { Gen g{0}; for (auto& u : W->log) if (is_prefix(p, u.at) || (u.subtree && is_prefix(u.at, p))) g = u.gen; return g; }
void check_watch(const Segs& p, const char* props, const char* when)
{
    auto& t = W->r->state.modifications; Gen want = model_changed_at(p), at; std::string text = enc(p); std::vector<Gen> gs = W->remembered; std::vector<char> got(gs.size());
    gs.push_back(W->initial); got.push_back(0); if (!W->log.empty()) { gs.push_back(W->log.back().gen); got.push_back(0); }
    for (size_t i = 0; i < W->log.size(); ++i) if (W->log[i].gen == want) { gs.push_back(want); got.push_back(0); gs.push_back(i ? W->log[i - 1].gen : W->initial); got.push_back(0); }
    { SutScope s; kl::path kp{text}; at = t.changed_at(kp); for (size_t i = 0; i < gs.size(); ++i) got[i] = t.changed_since(kp, gs[i]); }
    for (size_t i = 0; i < gs.size(); ++i) {
        bool w = (uint64_t)want > (uint64_t)gs[i];
        if (got[i] && !w) VIOL(props, "spurious-change", "%s %s is reported changed since generation %llu although nothing covering it succeeded since", when, show(p).c_str(), (unsigned long long)gs[i]);
        if (!got[i] && w) VIOL(props, "missed-change", "%s %s is not reported changed since generation %llu although update to %s succeeded after it", when, show(p).c_str(), (unsigned long long)gs[i], show(W->log.back().at).c_str());
        if (got[i] != ((uint64_t)at > (uint64_t)gs[i])) VIOL(props, "inconsistent-change", "changed_since and changed_at disagree for %s", show(p).c_str());
    }
}
Gen cur() { return W->r->state.modifications.current(); }
void check_all_watch(const char* props, const char* when) { for (auto& p : W->watch) check_watch(p, props, when); }
void add_watch(Segs p) { if (W->watch.size() < 70) W->watch.push_back(std::move(p)); }

void invariants(const V& v)
{
    std::vector<std::string> m; validate(&sRoot, v, -1, m);
    if (!m.empty()) VIOL("R04,R02", "invariant-broken", "the resource violates '%s'", m[0].c_str());
}

enum Fault { F_NONE, F_ALLOC, F_ALLOC_STICKY, F_USER };
void deliver(const Msg& m, const kl::path* shared_path = nullptr, const rapidjson::Document* shared_doc = nullptr)
{
    const V before = W->model; Segs segs; bool path_ok = read_path(m.path, segs); J jb; bool body_ok = m.verb == GET || m.verb == DEL || jparse(m.body, jb);
    Outcome want; V after = before;
    if (path_ok && body_ok) want = apply(after, m.verb, segs, jb); else want.status = 400;
    Fault f = F_NONE; uint32_t k = 0;
    uint32_t fc = choose(FAULT, 8);
    if (fc >= 6) { f = F_USER; k = 1 + choose(FAULT, 40); if (choose(FAULT, 2)) k = 1 + k % 8; }
    else if (fc >= 4) { f = fc == 5 ? F_ALLOC_STICKY : F_ALLOC; uint32_t r = choose(FAULT, 4); k = 1 + choose(FAULT, r == 0 ? 8 : r == 1 ? 40 : r == 2 ? 150 : 500); }
    sim::note("deliver #%d %s %s %s%s", m.id, kVerb[m.verb], m.path.c_str(), m.body.c_str(), f == F_NONE ? "" : f == F_USER ? "  [user code throws]" : "  [memory runs out]");
    int status = -1; std::string body; enum { RET, BADALLOC, USER, PATHERR, PARSEERR, OTHER } how = RET; Gen g0 = cur();
    bool reuse = choose(PROG, 2); kl::path* own = nullptr; std::string what;
    uint32_t fired = 0;
    {
        SutScope s;
        kl::resources::operation_result res{};
        try {
            const kl::path* kp;
            if (shared_path) kp = shared_path;
            else if (reuse) { W->reused->set(m.path); kp = W->reused; } else kp = own = new kl::path{m.path};
            rapidjson::Document own_doc; if (!shared_doc && m.verb != GET && m.verb != DEL) own_doc = kl::json::parse(m.body);
            const rapidjson::Document& doc = shared_doc ? *shared_doc : own_doc;
            { HarnessScope h; g_inj = Inject{}; if (f == F_USER) g_inj.left = k; if (f == F_ALLOC || f == F_ALLOC_STICKY) sim::arm_alloc(k, f == F_ALLOC_STICKY); }
            switch (m.verb) {
            case GET: { const Res& cr = *W->r; res = kl::resources::get(cr, *kp, [](const auto& v) { return kl::json::dump(v); }); break; }
            case PUT: res = kl::resources::put(*W->r, *kp, doc, *W->ctx); break;
            case POST: res = kl::resources::post(*W->r, *kp, doc, *W->ctx); break;
            case PATCH: res = kl::resources::patch(*W->r, *kp, doc, *W->ctx); break;
            case DEL: res = kl::resources::del(*W->r, *kp, *W->ctx); break;
            }
        }
        catch (const std::bad_alloc&) { how = BADALLOC; }
        catch (const UserFault&) { how = USER; }
        catch (const kl::path_parse_error&) { how = PATHERR; }
        catch (const kl::serialization::parse_error&) { how = PARSEERR; }
        catch (const std::exception& e) { how = OTHER; HarnessScope h; what = e.what(); }
        { HarnessScope h; fired = sim::disarm_alloc(); g_inj.left = 0; status = (int)res.status; body.assign(res.body.data(), res.body.size()); }
        delete own;
    }
    if (fired) { sim::fault_fired(f == F_ALLOC_STICKY ? "out-of-memory-from-here" : "alloc-failure"); W->faulted = true; sim::probe("alloc-failure"); }
    if (g_inj.fired) { W->faulted = true; sim::probe("user-code-throws"); }
    V real = tov(W->r->value); Gen g1 = cur();
    if (want.loose) sim::probe(how == RET && status == 404 ? "second-spelling-refused" : "second-spelling-taken");
    if (want.loose && how == RET && status == 404) { want = Outcome{}; want.status = 404; after = before; } // it may be refused; if it is taken it is the same node
    sim::rec(m.verb, (int)m.id, how == RET ? status : -how, want.status, (int)fired);
    sim::mix((uint64_t)status * 31 + (uint64_t)m.verb); for (auto& x : segs) for (char c : x) sim::mix((unsigned char)c);
    char who[96]; snprintf(who, sizeof who, "%s %s", kVerb[m.verb], m.path.substr(0, 60).c_str());

    if (how == PATHERR || how == PARSEERR || (!path_ok || !body_ok)) {
        if (how != (path_ok ? PARSEERR : PATHERR)) { if (!(how == PARSEERR && !path_ok)) VIOL("R02", "bad-acceptance", "%s: malformed %s is %s", who, path_ok ? "body" : "path", how == RET ? "accepted" : "reported by another exception"); }
        if (real != before || g1 != g0) VIOL("R01,R02", "changed-by-garbage", "%s: an unparsable request changed the resource", who);
        sim::probe("unparsable-request"); return;
    }
    if (how == OTHER) VIOL("R01,R02", "unexpected-exception", "%s: throws %s", who, what.c_str());
    if (how == USER || how == BADALLOC) {
        if (how == USER && !g_inj.fired) VIOL("R01", "harness", "user fault without cause");
        if (how == BADALLOC && !fired) VIOL("R01,R02", "unexpected-bad-alloc", "%s: throws bad_alloc although memory is available", who);
        bool done = how == BADALLOC && want.changed && (uint64_t)g1 > (uint64_t)g0; // applied completely before the failure
        const V& expect = done ? after : before;
        if (real != expect) VIOL("R01", how == USER ? "not-rolled-back" : "half-applied", "%s: after %s the document differs: %s", who, how == USER ? "user code threw" : done ? "memory ran out (change recorded)" : "memory ran out (no change recorded)", diff(&sRoot, real, expect, "").c_str());
        if (!done && g1 != g0) VIOL("R01,R03", "generation-moved", "%s: a failed request advanced the generation", who);
        if (done) { W->model = after; W->log.push_back({want.at, true, g1}); sim::probe("applied-then-failed"); }
        check_all_watch("R01,R03", "after a failed request");
        invariants(real);
        sim::probe(how == USER ? "user-exception-propagated" : "bad-alloc-propagated"); return;
    }
    if (g_inj.fired) VIOL("R01,R02", "exception-swallowed", "%s: an exception thrown by user code was swallowed, status %d", who, status);
    const char* p2 = want.status == 405 || want.status == 409 ? "R02,R04" : "R02";
    if (status != want.status) {
        if (status >= 400 && real != before) VIOL("R01,R02", "changed-on-error", "%s: answered %d but the document changed: %s", who, status, diff(&sRoot, real, before, "").c_str());
        VIOL(status < 400 && want.status >= 400 ? (want.status == 400 || want.status == 404 ? "R02" : "R02,R04") : p2, "status", "%s %s: answered %d, expected %d%s", who, m.body.substr(0, 200).c_str(), status, want.status, want.ro_refused ? " (read-only)" : "");
    }
    if (status >= 400) {
        if (real != before) VIOL(want.status == 405 || want.status == 409 ? "R01,R02,R04" : "R01,R02", "changed-on-error", "%s: answered %d but the document changed: %s", who, status, diff(&sRoot, real, before, "").c_str());
        if (g1 != g0) VIOL("R01,R03", "generation-moved", "%s: answered %d but the generation advanced", who, status);
        if (status == 409) { bool ok = false; for (auto& x : want.msgs) ok |= x == body; if (!ok) VIOL("R02", "conflict-body", "%s: the conflict body '%s' is not the reason", who, body.c_str()); sim::probe("conflict-rolled-back"); }
        if (want.ro_refused) sim::probe("read-only-refused");
        for (int i = 0; i < 4 && !W->watch.empty(); ++i) check_watch(W->watch[choose(PROG, (uint32_t)W->watch.size())], "R01,R03", "after a rejected request");
        return;
    }
    if (m.verb == GET) {
        if (real != before || g1 != g0) VIOL("R02,R03", "changed-by-get", "%s changed the resource", who);
        J got; if (!jparse(body, got) || !jeq(got, want.body)) VIOL("R02", "get-body", "%s returned %s, expected %s", who, body.substr(0, 200).c_str(), jtext(want.body).substr(0, 200).c_str());
        return;
    }
    if (real != after) VIOL(m.verb == PUT || m.verb == PATCH ? "R02,R04" : "R02", "wrong-effect", "%s %s: %s", who, m.body.substr(0, 200).c_str(), diff(&sRoot, real, after, "").c_str());
    if (!((uint64_t)g1 > (uint64_t)g0)) VIOL("R03", "generation-stuck", "%s succeeded but the generation did not advance", who);
    W->model = after; W->log.push_back({want.at, true, g1}); sim::probe(m.verb == PUT ? "put" : m.verb == POST ? "post" : m.verb == PATCH ? "patch" : "delete");
    check_watch(want.at, "R03", "after the update,"); if (!want.loose) check_watch(segs, "R03", "after the update,");
    for (int i = 0; i < 6 && !W->watch.empty(); ++i) check_watch(W->watch[choose(PROG, (uint32_t)W->watch.size())], "R03", "after an update,");
    invariants(real);
}

// the application changes the value directly and tells the tracker
void app_change()
{
    static const char* P[] = {"n", "leaf/n", "oi", "im"}; uint32_t c = choose(PROG, 4); bool sub = choose(PROG, 2); uint32_t fk = choose(FAULT, 4) == 3 ? 1 + choose(FAULT, 8) : 0;
    Gen g0 = cur(), ret{0}; bool threw = false; uint32_t fired = 0;
    V next = W->model; int val = (int)choose(PROG, 80);
    Segs at; read_path(P[c], at);
    {
        SutScope s; kl::path kp{P[c]};
        { HarnessScope h; if (fk) sim::arm_alloc(fk, false); }
        try { ret = W->r->state.modifications.notify_changed(kp, sub); } catch (const std::bad_alloc&) { threw = true; }
        { HarnessScope h; fired = sim::disarm_alloc(); }
    }
    if (fired) sim::fault_fired("alloc-failure");
    sim::note("application change at %s (subtree %d)%s", P[c], sub, threw ? " [memory runs out]" : "");
    if (threw) { if (!fired) VIOL("R03", "unexpected-bad-alloc", "notify_changed throws"); if (cur() != g0) VIOL("R01,R03", "generation-moved", "notify_changed failed but the generation advanced"); check_all_watch("R01,R03", "after a failed notification"); return; }
    if (ret != cur() || !((uint64_t)ret > (uint64_t)g0)) VIOL("R03", "generation-stuck", "notify_changed returned generation %llu, current is %llu, was %llu", (unsigned long long)ret, (unsigned long long)cur(), (unsigned long long)g0);
    { SutScope s; if (c == 0) W->r->value.n = val; else if (c == 1) W->r->value.leaf.n = val; else if (c == 2) W->r->value.oi = val; else W->r->value.im["app"] = val; }
    W->model = tov(W->r->value); W->log.push_back({at, sub, ret});
    for (int i = 0; i < 6 && !W->watch.empty(); ++i) check_watch(W->watch[choose(PROG, (uint32_t)W->watch.size())], "R03", "after an application change,");
    sim::probe("application-change");
}

// a long-lived resource: many changes reported by the application
void many_changes(uint32_t n)
{
    Segs at{"n"}; Gen g0 = cur(), first = g0, ret{0}; bool ok = true, seen = true; uint32_t i = 0;
    {
        SutScope s; kl::path kp{"n"}; auto& t = W->r->state.modifications;
        for (; i < n && ok && seen; ++i) { g0 = t.current(); ret = t.notify_changed(kp, false); ok = (uint64_t)ret > (uint64_t)g0 && t.current() == ret; if (i % 64 == 0 || i + 1 == n || !ok) seen = t.changed_since(kp, g0) && t.changed_since(kp, first); }
    }
    sim::note("the application reports %u changes of /n", n);
    if (!ok || !seen) VIOL("R03", !ok ? "generation-stuck" : "missed-change", "change number %u reported by the application: generation %llu after %llu%s", i, (unsigned long long)ret, (unsigned long long)g0, seen ? "" : ", not reported as changed");
    W->log.push_back({at, false, ret});
    check_all_watch("R03", "after many changes,"); sim::probe("many-changes");
}

// ------------------------------------------------------------------------------------------ R05: threads
World* make_world()
{
    World* w = new World; V init = gen_value(&sRoot, -1, 0);
    init.c[f_n].i %= 100; init.c[f_leaf].c[0].i %= 100; if (init.c[f_lm].c.empty()) init.c[f_leaves].c.clear();
    { SutScope s; w->r = new Res(kl::resources::make_resource(Root{})); w->ctx = new Ctx; w->reused = new kl::path; put(init, w->r->value); }
    w->model = tov(w->r->value); w->initial = w->r->state.modifications.current();
    return w;
}
struct Shared { Msg m; kl::path* path = nullptr; rapidjson::Document* doc = nullptr; };
struct Client { World* own; int steps; int id; };
World* g_shared; std::vector<Shared> g_msgs;
// reads of the resource nobody changes
void shared_read(int id)
{
    World* own = W; W = g_shared; uint32_t k = choose(PROG, 8);
    if (k >= 5) { check_watch(choose(PROG, 2) ? gen_path(W->model, true) : W->watch[choose(PROG, (uint32_t)W->watch.size())], "R05", "read concurrently,"); W = own; return; }
    Segs segs = gen_path(W->model, choose(PROG, 2)); std::string text = enc(segs), body; V v = W->model; Outcome want = apply(v, GET, segs, J{}); int how = 0;
    const Res& cr = *W->r; const kl::path* kp = nullptr; kl::path* own_path = nullptr; Segs ps; uint32_t fk = choose(FAULT, 5) == 4 ? 1 + choose(FAULT, 40) : 0, fired = 0;
    for (auto& sm : g_msgs) if (choose(PROG, 4) == 3 && read_path(sm.m.path, ps) && sm.path) { kp = sm.path; segs = ps; want = apply(v, GET, segs, J{}); break; }
    sim::note("thread %d reads %s of the shared resource (form %u)", id, show(segs).c_str(), k);
    {
        SutScope s;
        if (!kp) kp = own_path = new kl::path{text};
        { HarnessScope h; if (fk) sim::arm_alloc(fk, false); }
        try {
            if (k <= 1) { auto o = kl::resources::get(cr, *kp, [](const auto& x) { return kl::json::dump(x); }); HarnessScope h; how = (int)o.status; body.assign(o.body.data(), o.body.size()); }
            else if (k == 2) { auto o = kl::resources::get(cr, *kp, [](const auto& x) { kl::json::owning_serialize_context c; auto j = kl::json::serialize(x, c); return kl::json::dump(kl::json::view{j}); }); HarnessScope h; how = (int)o.status; body.assign(o.body.data(), o.body.size()); }
            else if (k == 3) { auto o = kl::resources::get(cr, *kp, [](const auto& x) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w{b}; kl::json::dump_context<rapidjson::Writer<rapidjson::StringBuffer>> c{w}; kl::json::dump(x, c); return std::string{b.GetString(), b.GetSize()}; }); HarnessScope h; how = (int)o.status; body.assign(o.body.data(), o.body.size()); }
            else { kl::json::owning_serialize_context c; auto j = kl::resources::serialize_at_path(cr.value, kp->view(), c); auto t = kl::json::dump(kl::json::view{j}); HarnessScope h; how = 200; body.assign(t.data(), t.size()); }
        }
        catch (const kl::resources::path_segment_not_found_error&) { how = 404; }
        catch (const kl::resources::path_not_traversable_error&) { how = 404; }
        catch (const std::bad_alloc&) { how = 1; }
        catch (const std::exception& e) { how = 2; }
        { HarnessScope h; fired = sim::disarm_alloc(); }
        delete own_path;
    }
    if (fired) { sim::fault_fired("alloc-failure"); sim::probe("alloc-failure"); }
    sim::rec(8, id, how, want.status, (int)fired); sim::mix((uint64_t)how);
    W = own;
    if (how == 1 && fired) return;
    if (want.loose && how == 404) return;
    if (how != want.status) sim::violation("R05", "shared-status", "reading %s of an unchanged resource gives %d, alone it gives %d", show(segs).c_str(), how, want.status);
    J got; if (how == 200 && (!jparse(body, got) || !jeq(got, want.body))) sim::violation("R05", "shared-read", "reading %s of an unchanged resource returned %s, expected %s", show(segs).c_str(), body.substr(0, 200).c_str(), jtext(want.body).substr(0, 200).c_str());
    sim::probe("shared-read");
}
void client(void* p)
{
    HarnessScope hs; auto& c = *static_cast<Client*>(p); W = c.own;
    for (int i = 0; i < c.steps; ++i) {
        { SutScope s; sim::yield_point(80); }
        uint32_t k = choose(PROG, 5);
        if (k <= 1) { shared_read(c.id); continue; }
        if (k == 2 && !g_msgs.empty()) { auto& sm = g_msgs[choose(PROG, (uint32_t)g_msgs.size())]; sim::probe("shared-request"); deliver(sm.m, sm.path, sm.doc); continue; }
        Msg m = gen_msg(W->model, ++W->msgs); if (choose(FAULT, 8) == 7) damage_once(m.body.empty() || choose(FAULT, 4) == 3 ? m.path : m.body, 1 + choose(FAULT, 7));
        deliver(m); sim::probe("own-request");
    }
}
void run_threads()
{
    HarnessScope hs;
    init_schema(); g_conc = true; g_msgs.clear();
    sim::set_fatal_props("R05"); sim::set_race_props("R05"); sim::set_step_budget(60000000); sim::set_alloc_points(true);
    g_shared = make_world();
    bool warm = choose(PROG, 4) == 3; // otherwise the threads are the first users in this process
    W = g_shared;
    if (warm) for (int i = 0; i < 3; ++i) deliver(gen_msg(W->model, ++W->msgs));
    add_watch({}); for (int i = 0; i < 6; ++i) add_watch(gen_path(W->model, true));
    uint32_t ns = choose(PROG, 4);
    for (uint32_t i = 0; i < ns; ++i) {
        Shared sm; sm.m = gen_msg(g_shared->model, 900 + (int)i); Segs ps; J jb; if (!read_path(sm.m.path, ps) || (sm.m.verb != GET && sm.m.verb != DEL && !jparse(sm.m.body, jb))) continue;
        { SutScope s; sm.path = new kl::path{sm.m.path}; if (sm.m.verb != GET && sm.m.verb != DEL) sm.doc = new rapidjson::Document(kl::json::parse(sm.m.body)); }
        g_msgs.push_back(std::move(sm));
    }
    uint32_t nt = 2 + choose(PROG, 3); std::vector<Client> cs(nt);
    for (uint32_t i = 0; i < nt; ++i) { cs[i].own = make_world(); cs[i].steps = 1 + (int)choose(PROG, 4); cs[i].id = (int)i + 1; sim::spawn(client, &cs[i]); }
    { SutScope s; sim::join_all(); }
    sim::nontrivial();
    for (auto& c : cs) { W = c.own; check_all_watch("R05", "at the end,"); invariants(tov(W->r->value)); if (tov(W->r->value) != W->model) sim::violation("R05", "final", "a thread's resource differs from its own history"); }
    W = g_shared; if (tov(W->r->value) != W->model) sim::violation("R05", "shared-changed", "the resource that was only read changed");
    { SutScope s; for (auto& c : cs) { delete c.own->r; delete c.own->ctx; delete c.own->reused; } delete g_shared->r; delete g_shared->ctx; delete g_shared->reused; for (auto& m : g_msgs) { delete m.path; delete m.doc; } }
    sim::leak_check("R05");
}

void run(const char* prop)
{
    if (!strcmp(prop, "R05")) { run_threads(); return; }
    HarnessScope hs;
    init_schema();
    sim::set_fatal_props("R01,R02"); sim::set_race_props("R01,R02"); sim::set_step_budget(60000000);
    W = new World;
    V init = gen_value(&sRoot, -1, 0);
    init.c[f_n].i %= 100; init.c[f_leaf].c[0].i %= 100; if (init.c[f_lm].c.empty()) init.c[f_leaves].c.clear();
    { SutScope s; W->r = new Res(kl::resources::make_resource(Root{})); W->ctx = new Ctx; W->reused = new kl::path; put(init, W->r->value); }
    W->model = tov(W->r->value); W->initial = cur(); invariants(W->model);
    if (W->model != init) VIOL("R02", "harness", "initial value differs");
    add_watch({}); for (auto& f : sRoot.f) if (choose(PROG, 3) == 0) add_watch({f.name});
    for (int i = 0; i < 16; ++i) add_watch(gen_path(W->model, true));
    if (!strcmp(prop, "R03")) { uint32_t mc = choose(PROG, 1024); if (mc >= 1022) many_changes(mc == 1023 ? 66000 : 300); }
    std::vector<Msg> flight; int budget = 4 + (int)choose(PROG, 28);
    while (budget > 0 || !flight.empty()) {
        if (budget > 0) {
            int burst = 1 + (int)choose(PROG, 3);
            for (int i = 0; i < burst && budget > 0; ++i, --budget) { flight.push_back(gen_msg(W->model, ++W->msgs)); sim::note("client sends #%d %s %s %s", flight.back().id, kVerb[flight.back().verb], flight.back().path.c_str(), flight.back().body.c_str()); }
            if (choose(PROG, 12) == 11) app_change();
            if (choose(PROG, 4) == 3) { W->remembered.push_back(cur()); if (W->remembered.size() > 6) W->remembered.erase(W->remembered.begin()); }
            if (choose(PROG, 4) == 3) add_watch(gen_path(W->model, true));
        }
        int n = (int)choose(SCHED, 4); if (budget <= 0) n = 4;
        for (int i = 0; i < n && !flight.empty(); ++i) {
            uint32_t x = choose(SCHED, (uint32_t)flight.size()); if (x) sim::fault_fired("reordered");
            Msg m = flight[x]; uint32_t t = choose(FAULT, 24);
            if (t == 23) { sim::fault_fired("lost"); flight.erase(flight.begin() + x); continue; }
            if (t == 22) { sim::fault_fired("duplicated"); } else flight.erase(flight.begin() + x);
            if (t >= 19 && t <= 21) { uint32_t k = 1 + choose(FAULT, 7); damage_once(m.body.empty() || choose(FAULT, 4) == 3 ? m.path : m.body, k); }
            deliver(m); W->msgs++;
            if (t == 22 && choose(FAULT, 4) == 3) { deliver(m); }
        }
    }
    if (W->log.size() > 1) sim::nontrivial();
    // every node still answers with the model's content
    Msg g; g.id = 0; g.verb = GET; g.path = "/"; { Msg m = g; Outcome w; V v = W->model; w = apply(v, GET, {}, J{}); std::string body; int st = 0;
        { SutScope s; kl::path kp{"/"}; const Res& cr = *W->r; auto res = kl::resources::get(cr, kp, [](const auto& x) { return kl::json::dump(x); }); HarnessScope h; st = (int)res.status; body.assign(res.body.data(), res.body.size()); }
        J got; if (st != 200 || !jparse(body, got) || !jeq(got, w.body)) VIOL("R02", "final-get", "the final document read differs"); }
    check_all_watch("R03", "at the end,");
    { SutScope s; delete W->r; delete W->ctx; delete W->reused; }
    sim::leak_check("R01");
}
void describe(const sim::Event& e, char* b, int n)
{
    if (e.kind == 8) { snprintf(b, n, "read of the shared resource by thread %d -> %d (model %d)%s", e.a, e.b, e.c, e.d ? " with memory failure" : ""); return; }
    if (e.kind <= DEL) snprintf(b, n, "%s #%d -> %d (model %d)%s", kVerb[e.kind], e.a, e.b, e.c, e.d ? " with memory failure" : "");
}
} // namespace
const sim::Harness sim::harness = {"res", run, describe};

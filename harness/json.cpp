// Harness for kl::json and kl::serialization (J01-J03): threads, failing memory and damaged documents against an
// independent schema-driven model (jsonmodel).
#include "../sim/simrt.h"
#include "damage.h"
#include "jsonmodel.h"
#include <cmath>
#include <kl/ctti.hpp>
#include <kl/enum_set.hpp>
#ifdef KLB_YAML
#include <kl/yaml.hpp>
#else
#include <kl/json.hpp>
#endif
#include <kl/reflect_enum.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/serialization_attributes.hpp>
#include <array>
#include <deque>
#include <list>
#include <new>
#include <unordered_map>
using sim::choose; using sim::HarnessScope; using sim::SutScope; using sim::PROG; using sim::SCHED; using sim::FAULT;
namespace attr = kl::serialization::attributes;
#ifdef KLB_YAML // the same simulated system over the YAML backend
namespace js = kl::yaml; using RV = YAML::Node; using DOC = YAML::Node;
#define P_THREADS "Y03"
#define P_MEMORY "Y02"
#define P_DOCS "Y01"
#define DOCKIND "YAML"
#define DOCWORDS 25
#else
namespace js = kl::json; using DOC = rapidjson::Document; using RV = rapidjson::Value;
#define P_THREADS "J01"
#define P_MEMORY "J02"
#define P_DOCS "J03"
#define DOCKIND "JSON"
#define DOCWORDS 15
#endif
// ------------------------------------------------------------------------------------------------ user types
namespace jt {
struct user_fault {};
uint32_t g_user_arm; uint32_t g_user_fired; bool g_mt;
inline void user_point() // user code called back by the library: a preemption point, and it may fail
{
    if (g_mt) sim::yield_point(7);
    bool due; { HarnessScope h; due = g_user_arm && --g_user_arm == 0; if (due) { ++g_user_fired; sim::fault_fired("user-code-throws"); } }
    if (due) throw user_fault{};
}
enum class color { red, green, blue }; KL_REFLECT_ENUM(color, red, green, blue)
enum class odd { a = 5, b = -3, c = 100 }; KL_REFLECT_ENUM(odd, a, (b, bee), c)
enum class perm { r = 1, w = 2, x = 4 }; KL_REFLECT_ENUM(perm, r, w, x)
enum class level : uint8_t {}; enum plain_e : int {};
struct ticket { int n = 0; };
#ifdef KLB_YAML // yaml-cpp's emitter is a stream, which swallows memory failures
inline std::string digits(int n) { return std::to_string(n); } inline void reread(int) {}
#else // user conversions that use the library themselves, while it is in the middle of another document
template <typename Ctx> void dump_adl(js::stream_tag, const ticket& t, Ctx& ctx);
inline std::string digits(int n) { if (n < 10) return n & 1 ? js::dump(n) : js::pretty_dump(n); std::string s = js::dump(ticket{n / 10}); return s.substr(3, s.size() - 4) + (char)('0' + n % 10); }
inline void reread(int n) { auto d = js::parse(std::to_string(n)); if (js::deserialize<int>(d) != n || js::serialize(n).GetInt() != n) throw user_fault{}; }
#endif
template <typename Ctx> void dump_adl(js::stream_tag, const ticket& t, Ctx& ctx) { user_point(); js::dump("T-" + digits(t.n), ctx); }
template <typename Ctx> RV serialize_adl(js::tree_tag, const ticket& t, Ctx& ctx) { user_point(); return js::serialize("T-" + digits(t.n), ctx); }
template <typename Ctx> void deserialize_adl(js::tree_tag, ticket& t, const RV& v, Ctx& ctx)
{
    user_point(); std::string s; js::deserialize(s, v, ctx);
    if (s.size() < 3 || s.size() > 6 || s[0] != 'T' || s[1] != '-') throw kl::serialization::deserialize_error{"not a ticket"};
    int n = 0; for (size_t i = 2; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') throw kl::serialization::deserialize_error{"not a ticket"}; n = n * 10 + (s[i] - '0'); }
    reread(n); t.n = n;
}
struct point { int x = 0, y = 0; };
struct leaf { int i = 0; std::string s; std::optional<int> o; }; KL_REFLECT_STRUCT(leaf, i, s, o)
struct nums { int8_t i8 = 0; int16_t i16 = 0; int32_t i32 = 0; int64_t i64 = 0; uint8_t u8 = 0; uint16_t u16 = 0; uint32_t u32 = 0; uint64_t u64 = 0; bool b = false; float f = 0; double d = 0; };
KL_REFLECT_STRUCT(nums, i8, i16, i32, i64, u8, u16, u32, u64, b, f, d)
struct named { int a = 0; std::string b; int c = 0; std::optional<int> d; };
KL_REFLECT_STRUCT(named, (a, attr::rename("new-a")), (b, attr::aliases("b_old", "b_older")), (c, attr::rename("cc"), attr::aliases("c", "c_2", "c_3")), (d, attr::aliases("dd")))
struct dflt { int a = 0; std::string b; std::optional<int> c; std::vector<int> d; uint8_t e = 0; int f = 0; };
KL_REFLECT_STRUCT(dflt, (a, attr::default_value(7)), (b, attr::default_value("text"), attr::rename("bb")), (c, attr::default_value(3)), (d, attr::allow_missing), (e, attr::default_value(200), attr::aliases("e_old")), f)
struct skips { int keep = 0; int both = 0; int ss = 0; int sd = 0; std::string both2; };
KL_REFLECT_STRUCT(skips, keep, (both, attr::skip), (ss, attr::skip_serialization), (sd, attr::skip_deserialization), (both2, attr::skip_serialization, attr::skip_deserialization))
struct slow_range { template <typename T> void operator()(const T& v) const { user_point(); if (v < 0 || v > 1000) throw kl::serialization::deserialize_error{"out of the user's range"}; } };
struct valid { int a = 0; double b = 0; uint8_t c = 0; int d = 0; };
KL_REFLECT_STRUCT(valid, (a, attr::range(-5, 100)), (b, attr::greater_equal(0)), (c, attr::less_equal(10), attr::aliases("c1")), (d, attr::validate(slow_range{}), attr::default_value(-1)))
struct present { template <typename T> void operator()(const std::optional<T>& v) const { user_point(); if (!v) throw kl::serialization::deserialize_error{"must be present"}; if (*v < 0 || *v > 500) throw kl::serialization::deserialize_error{"out of range"}; } };
struct opval { std::optional<int> a; std::optional<int> b; int c = 0; };
KL_REFLECT_STRUCT(opval, (a, attr::validate(present{})), (b, attr::aliases("b_old"), attr::validate(present{}), attr::rename("bb")), c)
struct triple { int a = 0; std::string b; std::optional<int> c; uint8_t d = 0; };
struct nullish { std::optional<int> a; std::optional<std::string> b; std::optional<int> c; std::string d; std::vector<int> e; std::map<std::string, int> f; };
KL_REFLECT_STRUCT(nullish, a, (b, attr::skip_if_null), (c, attr::emit_null), (d, attr::skip_if_empty, attr::allow_missing), (e, attr::skip_if_empty, attr::allow_missing), (f, attr::allow_missing, attr::skip_if_empty))
struct inner { int fa = 0; std::string fb; std::optional<leaf> fc; }; KL_REFLECT_STRUCT(inner, fa, (fb, attr::rename("f-b"), attr::aliases("fb_old")), fc)
struct flat { int id = 0; inner in; std::map<std::string, int> ex; std::string tail; }; KL_REFLECT_STRUCT(flat, id, (in, attr::flatten), (ex, attr::extra_fields), tail)
struct flat2 { inner in; skips sk; double z = 0; }; KL_REFLECT_STRUCT(flat2, (in, attr::flatten), (sk, attr::flatten), z)
struct deepflat { flat2 f; color c = color::red; }; KL_REFLECT_STRUCT(deepflat, (f, attr::flatten), c)
struct extra { int a = 0; std::optional<int> n; std::unordered_map<std::string, std::optional<leaf>> ex; }; KL_REFLECT_STRUCT(extra, (a, attr::aliases("a1")), n, (ex, attr::extra_fields))
struct exin { int p = 0; std::map<std::string, int> more; }; KL_REFLECT_STRUCT(exin, (p, attr::aliases("p_old")), (more, attr::extra_fields))
struct flatx { int q = 0; exin e; std::optional<int> w; }; KL_REFLECT_STRUCT(flatx, (q, attr::rename("quu")), (e, attr::flatten), (w, attr::aliases("w1")))
struct base { int ba = 0; std::string bb; }; KL_REFLECT_STRUCT(base, ba, bb)
struct derived : base { leaf dl; odd od = odd::a; }; KL_REFLECT_STRUCT_DERIVED(derived, base, dl, od)
#ifdef KLB_YAML
struct seen { int a = 0; std::string sv; js::view raw; std::map<std::string, js::view> rest; }; KL_REFLECT_STRUCT(seen, a, sv, raw, (rest, attr::extra_fields))
struct peek { int a = 0; std::string_view sv; std::vector<std::string_view> vs; }; KL_REFLECT_STRUCT(peek, a, sv, (vs, attr::allow_missing))
#else
struct seen { int a = 0; std::string_view sv; js::view raw; std::map<std::string, js::view> rest; }; KL_REFLECT_STRUCT(seen, a, sv, raw, (rest, attr::extra_fields))
#endif
struct mix { color c = color::red; odd o = odd::a; kl::enum_set<perm> ps; level lv{}; plain_e pe{}; ticket tk; point pt; std::optional<ticket> otk; triple tr; };
KL_REFLECT_STRUCT(mix, c, o, ps, lv, pe, tk, pt, otk, tr)
struct conts { std::vector<leaf> vl; std::list<int> li; std::deque<std::string> dq; std::array<int, 3> ar{}; std::array<std::optional<int>, 2> ao; std::tuple<int, std::string, std::optional<bool>> tu; std::pair<std::string, uint16_t> pr; std::map<std::string, leaf> ml; std::unordered_map<std::string, std::vector<int>> um; std::optional<leaf> ol; std::optional<std::vector<std::optional<int>>> ov; std::map<std::string, std::optional<int>> mo; };
KL_REFLECT_STRUCT(conts, vl, li, dq, ar, ao, tu, pr, ml, um, ol, ov, mo)
struct nest { named nm; dflt df; std::optional<valid> va; std::vector<flat> fl; std::map<std::string, nullish> nu; std::optional<conts> co; mix mx; std::optional<std::optional<int>> oo; };
KL_REFLECT_STRUCT(nest, (nm, attr::allow_missing), df, (va, attr::rename("v-a")), fl, nu, (co, attr::skip_if_null), (mx, attr::allow_missing), oo)
// what a conversion starts from: a new element, or the one that is there
struct hold { std::optional<dflt> od; std::array<nullish, 2> an; std::map<std::string, dflt> md; std::pair<int, nullish> pn; std::optional<skips> os; std::tuple<skips, int> ts; std::vector<skips> vs; std::optional<std::map<std::string, int>> om; };
KL_REFLECT_STRUCT(hold, od, (an, attr::allow_missing), md, (pn, attr::allow_missing), os, (ts, attr::allow_missing), vs, om)
struct seqs { int a = 0; std::string b; int c = 0; int d = 0; std::optional<int> e; int f = 0; };
KL_REFLECT_STRUCT(seqs, (a, attr::skip_serialization), b, (c, attr::skip_deserialization), (d, attr::default_value(4), attr::allow_missing), e, (f, attr::allow_missing))
// attributes in combination
struct combo { std::optional<int> a; std::string b; std::optional<int> c; int d = 0; std::optional<leaf> e; std::vector<int> f; int g = 0; uint8_t h = 0; };
KL_REFLECT_STRUCT(combo, (a, attr::rename("aa"), attr::aliases("a_1", "a_2"), attr::emit_null), (b, attr::aliases("b_1"), attr::rename("bb"), attr::skip_if_empty, attr::default_value("zz")), (c, attr::skip_if_null, attr::default_value(11), attr::aliases("c_1")),
                  (d, attr::aliases("d_1", "d_2"), attr::range(-5, 50), attr::default_value(5), attr::allow_missing), (e, attr::emit_null, attr::aliases("e_1")), (f, attr::rename("ff"), attr::skip_if_empty, attr::allow_missing, attr::aliases("f")),
                  (g, attr::skip_serialization, attr::rename("gg"), attr::aliases("g"), attr::default_value(3)), (h, attr::rename("hh"), attr::greater_equal(2), attr::less_equal(200), attr::default_value(1)))
// two versions of one record, as met during a rolling upgrade: a renamed member, members the old version does not know
struct rec_old { int id = 0; int rev = 0; std::string title; std::vector<leaf> items; std::map<std::string, std::string> rest; };
KL_REFLECT_STRUCT(rec_old, id, rev, (title, attr::aliases("name")), (items, attr::skip_if_empty, attr::allow_missing), (rest, attr::extra_fields))
struct rec_hdr { int id = 0; int rev = 0; std::string name; };
KL_REFLECT_STRUCT(rec_hdr, id, rev, (name, attr::aliases("title", "caption")))
struct rec_new { rec_hdr h; std::string note; color tint = color::red; ticket tk; std::vector<leaf> items; std::map<std::string, std::string> rest; };
KL_REFLECT_STRUCT(rec_new, (h, attr::flatten), (note, attr::default_value("none")), (tint, attr::rename("colour"), attr::default_value(color::red)), (tk, attr::default_value(ticket{})), (items, attr::allow_missing), (rest, attr::extra_fields))
} // namespace jt
#ifdef KLB_YAML
template <> struct kl::serialization::serializer<jt::point> {
    template <typename C> static void dump(const jt::point& p, C& ctx) { jt::user_point(); ctx.emitter() << YAML::BeginMap << YAML::Key << "px" << YAML::Value; js::dump(p.x, ctx); ctx.emitter() << YAML::Key << "py" << YAML::Value; js::dump(p.y, ctx); ctx.emitter() << YAML::EndMap; }
    template <typename C> static RV serialize(const jt::point& p, C& ctx) { std::string n = "px and a long tail that needs the heap"; return js::to_map(ctx).add(n.substr(0, 2), p.x).add("py", p.y); }
    template <typename V, typename C> static void deserialize(jt::point& p, const V& v, C& ctx) { jt::user_point(); js::from_map(v, ctx).extract("px", p.x).extract("py", p.y); }
    template <typename V, typename C> static void patch(jt::point& p, const V& v, C& ctx)
    { if (!v.IsMap()) throw deserialize_error{"a point patch is a map"}; if (v["px"]) js::deserialize(p.x, v["px"], ctx); if (v["py"]) js::deserialize(p.y, v["py"], ctx); }
};
template <> struct kl::serialization::serializer<jt::triple> {
    template <typename C> static void dump(const jt::triple& t, C& ctx) { ctx.emitter() << YAML::BeginSeq; js::dump(t.a, ctx); js::dump(t.b, ctx); js::dump(nullptr, ctx); js::dump(t.c, ctx); js::dump(t.d, ctx); ctx.emitter() << YAML::EndSeq; }
    template <typename C> static RV serialize(const jt::triple& t, C& ctx) { return js::to_sequence(ctx).add(t.a).add(t.b).add(RV{}).add(t.c).add(t.d).done(); }
    template <typename V, typename C> static void deserialize(jt::triple& t, const V& v, C& ctx) { js::from_sequence(v, ctx).extract(t.a).extract(t.b).extract(t.c, 3).extract(t.d); }
    template <typename V, typename C> static void patch(jt::triple& t, const V& v, C& ctx) { deserialize(t, v, ctx); }
};
#else
template <> struct kl::serialization::serializer<jt::point> {
    template <typename C> static void dump(const jt::point& p, C& ctx) { jt::user_point(); ctx.writer().StartObject(); ctx.writer().Key("px"); kl::json::dump(p.x, ctx); ctx.writer().Key("py"); kl::json::dump(p.y, ctx); ctx.writer().EndObject(); }
    template <typename C> static rapidjson::Value serialize(const jt::point& p, C& ctx) { std::string n = "px and a long tail that needs the heap"; return kl::json::to_object(ctx).add_dynamic_name(std::string_view(n).substr(0, 2), p.x).add("py", p.y); }
    template <typename V, typename C> static void deserialize(jt::point& p, const V& v, C& ctx) { jt::user_point(); kl::json::from_object(v, ctx).extract("px", p.x).extract("py", p.y); }
    template <typename V, typename C> static void patch(jt::point& p, const V& v, C& ctx)
    { if (!v.IsObject()) throw deserialize_error{"a point patch is an object"}; if (v.HasMember("px")) kl::json::deserialize(p.x, v["px"], ctx); if (v.HasMember("py")) kl::json::deserialize(p.y, v["py"], ctx); }
};
template <> struct kl::serialization::serializer<jt::triple> {
    template <typename C> static void dump(const jt::triple& t, C& ctx) { ctx.writer().StartArray(); kl::json::dump(t.a, ctx); kl::json::dump(t.b, ctx); kl::json::dump(nullptr, ctx); kl::json::dump(t.c, ctx); kl::json::dump(t.d, ctx); ctx.writer().EndArray(); }
    template <typename C> static rapidjson::Value serialize(const jt::triple& t, C& ctx) { return kl::json::to_array(ctx).add(t.a).add(t.b).add(rapidjson::Value{}).add(t.c).add(t.d).done(); }
    template <typename V, typename C> static void deserialize(jt::triple& t, const V& v, C& ctx) { kl::json::from_array(v, ctx).extract(t.a).extract(t.b).extract(t.c, 3).extract(t.d); }
    template <typename V, typename C> static void patch(jt::triple& t, const V& v, C& ctx) { deserialize(t, v, ctx); }
};
#endif
// ------------------------------------------------------------------------------------------------ schemas (written independently of the reflection above)
namespace jm { // found by argument-dependent lookup through jm::V and jm::tag
using namespace jt;
template <typename T> struct tag {};
template <typename T> const Schema* S() { static const Schema* s = new Schema(sch(tag<T>{})); return s; }
Schema prim(jm::Kind k) { Schema s; s.k = k; return s; }
#define PRIM(T, K) Schema sch(tag<T>) { return prim(jm::K); } \
    void to(const T& x, V& v) { v.k = jm::K; (jm::K >= jm::U8 && jm::K <= jm::U64 ? v.u : (uint64_t&)v.i) = (uint64_t)x; } void from(T& x, const V& v) { x = (T)(jm::K >= jm::U8 && jm::K <= jm::U64 ? v.u : (uint64_t)v.i); }
PRIM(int8_t, I8) PRIM(int16_t, I16) PRIM(int32_t, I32) PRIM(int64_t, I64) PRIM(uint8_t, U8) PRIM(uint16_t, U16) PRIM(uint32_t, U32) PRIM(uint64_t, U64)
Schema sch(tag<bool>) { return prim(jm::BOOL); } void to(bool x, V& v) { v.k = jm::BOOL; v.i = x; } void from(bool& x, const V& v) { x = v.i; }
Schema sch(tag<float>) { return prim(jm::F32); } void to(float x, V& v) { v.k = jm::F32; v.d = x; } void from(float& x, const V& v) { x = (float)v.d; }
Schema sch(tag<double>) { return prim(jm::F64); } void to(double x, V& v) { v.k = jm::F64; v.d = x; } void from(double& x, const V& v) { x = v.d; }
Schema sch(tag<std::string>) { return prim(jm::STR); } void to(const std::string& x, V& v) { v.k = jm::STR; v.s = x; } void from(std::string& x, const V& v) { x = v.s; }
Schema sch(tag<std::string_view>) { return prim(jm::STR); } void to(std::string_view x, V& v) { v.k = jm::STR; v.s = std::string(x); } void from(std::string_view& x, const V& v) { HarnessScope h; x = *new std::string(v.s); }
Schema sch(tag<js::view>) { return prim(jm::VIEW); } void to(js::view x, V& v) { v.k = jm::VIEW; HarnessScope h; v.s = x ? jtext(jfrom(x.value())) : "null"; }
#ifdef KLB_YAML
std::vector<std::pair<RV, std::string>>* g_viewed; // documents that views of the run look into, and what they say
void from(js::view& x, const V& v) { SutScope h; RV d = YAML::Load(v.s); if (!jt::g_mt) { if (!g_viewed) g_viewed = new std::vector<std::pair<RV, std::string>>; g_viewed->emplace_back(d, v.s); } x = js::view(d); }
#else
void from(js::view& x, const V& v) { HarnessScope h; auto* d = new rapidjson::Document; d->Parse(v.s.data(), v.s.size()); x = js::view(*d); }
#endif
Schema sch(tag<color>) { Schema s = prim(jm::ENUM); s.names = {{0, "red"}, {1, "green"}, {2, "blue"}}; return s; }
Schema sch(tag<odd>) { Schema s = prim(jm::ENUM); s.names = {{5, "a"}, {-3, "bee"}, {100, "c"}}; return s; }
Schema sch(tag<perm>) { Schema s = prim(jm::ENUM); s.names = {{1, "r"}, {2, "w"}, {4, "x"}}; return s; }
void to(color x, V& v) { v.k = jm::ENUM; v.i = (int)x; } void from(color& x, const V& v) { x = (color)v.i; }
void to(odd x, V& v) { v.k = jm::ENUM; v.i = (int)x; } void from(odd& x, const V& v) { x = (odd)v.i; }
Schema sch(tag<level>) { Schema s = prim(jm::PENUM); s.e = S<uint8_t>(); return s; } void to(level x, V& v) { v.k = jm::PENUM; v.i = (int)x; } void from(level& x, const V& v) { x = (level)v.i; }
Schema sch(tag<plain_e>) { Schema s = prim(jm::PENUM); s.e = S<int>(); return s; } void to(plain_e x, V& v) { v.k = jm::PENUM; v.i = (int)x; } void from(plain_e& x, const V& v) { x = (plain_e)v.i; }
Schema sch(tag<kl::enum_set<perm>>) { Schema s = prim(jm::ESET); s.e = S<perm>(); return s; } void to(kl::enum_set<perm> x, V& v) { v.k = jm::ESET; v.u = (uint64_t)x.underlying_value(); } void from(kl::enum_set<perm>& x, const V& v) { x = kl::enum_set<perm>{(perm)v.u}; }
Schema sch(tag<ticket>) { return prim(jm::TICKET); } void to(const ticket& x, V& v) { v.k = jm::TICKET; v.i = x.n; } void from(ticket& x, const V& v) { x.n = (int)v.i; }
Schema sch(tag<triple>) { return prim(jm::TRIPLE); } void to(const triple& x, V& v) { v.k = jm::TRIPLE; v.a.resize(4); to(x.a, v.a[0]); to(x.b, v.a[1]); v.a[2].k = jm::OPT; if (x.c) { v.a[2].a.resize(1); to(*x.c, v.a[2].a[0]); } to(x.d, v.a[3]); }
void from(triple& x, const V& v) { from(x.a, v.a[0]); from(x.b, v.a[1]); x.c.reset(); if (!v.a[2].a.empty()) x.c = (int)v.a[2].a[0].i; from(x.d, v.a[3]); }
Schema sch(tag<point>) { return prim(jm::POINT); } void to(const point& x, V& v) { v.k = jm::POINT; v.a.resize(2); to(x.x, v.a[0]); to(x.y, v.a[1]); } void from(point& x, const V& v) { from(x.x, v.a[0]); from(x.y, v.a[1]); }
// containers: declared first, they nest
#define SEQT(C) template <typename T> Schema sch(tag<C<T>>); template <typename T> void to(const C<T>&, V&); template <typename T> void from(C<T>&, const V&);
SEQT(std::vector) SEQT(std::list) SEQT(std::deque) SEQT(std::optional)
template <typename T, size_t N> Schema sch(tag<std::array<T, N>>); template <typename T, size_t N> void to(const std::array<T, N>&, V&); template <typename T, size_t N> void from(std::array<T, N>&, const V&);
template <typename T> Schema sch(tag<std::map<std::string, T>>); template <typename T> void to(const std::map<std::string, T>&, V&); template <typename T> void from(std::map<std::string, T>&, const V&);
template <typename T> Schema sch(tag<std::unordered_map<std::string, T>>); template <typename T> void to(const std::unordered_map<std::string, T>&, V&); template <typename T> void from(std::unordered_map<std::string, T>&, const V&);
// structs: schema and member list
struct ToV { V& v; size_t n = 0; template <typename T> void operator()(const T& x) { if (v.a.size() <= n) v.a.resize(n + 1); to(x, v.a[n++]); } };
struct FromV { const V& v; size_t n = 0; template <typename T> void operator()(T& x) { from(x, v.a[n++]); } };
#define M1(a) f(x.a);
#define STRUCTV(T, BODY) template <typename X, typename F> void mem_##T(X& x, F&& f) { BODY } \
    void to(const T& x, V& v) { v.k = jm::STRUCT; ToV t{v}; mem_##T(x, t); } void from(T& x, const V& v) { FromV t{v}; mem_##T(x, t); }
template <typename T> FieldS fld(const char* name, unsigned flags = 0, const char* rename = nullptr, std::vector<const char*> al = {}) { FieldS f; f.name = name; f.s = S<T>(); f.flags = flags; f.rename = rename; f.aliases = std::move(al); return f; }
FieldS def(FieldS f, int64_t i, const char* s = nullptr) { f.flags |= jm::HASDEF; f.di = i; f.ds = s; return f; }
FieldS rng(FieldS f, double lo, double hi) { f.flags |= jm::VALID; f.lo = lo; f.hi = hi; return f; }
Schema stru(const char* n, std::vector<FieldS> f) { Schema s; s.k = jm::STRUCT; s.tn = n; s.f = std::move(f); return s; }
Schema sch(tag<leaf>); Schema sch(tag<named>); Schema sch(tag<dflt>); Schema sch(tag<valid>); Schema sch(tag<flat>); Schema sch(tag<nullish>); Schema sch(tag<conts>); Schema sch(tag<mix>); Schema sch(tag<inner>); Schema sch(tag<skips>); Schema sch(tag<flat2>); Schema sch(tag<exin>);
STRUCTV(leaf, M1(i) M1(s) M1(o)) STRUCTV(nums, M1(i8) M1(i16) M1(i32) M1(i64) M1(u8) M1(u16) M1(u32) M1(u64) M1(b) M1(f) M1(d)) STRUCTV(named, M1(a) M1(b) M1(c) M1(d)) STRUCTV(dflt, M1(a) M1(b) M1(c) M1(d) M1(e) M1(f))
STRUCTV(skips, M1(keep) M1(both) M1(ss) M1(sd) M1(both2)) STRUCTV(valid, M1(a) M1(b) M1(c) M1(d)) STRUCTV(nullish, M1(a) M1(b) M1(c) M1(d) M1(e) M1(f)) STRUCTV(inner, M1(fa) M1(fb) M1(fc)) STRUCTV(flat, M1(id) M1(in) M1(ex) M1(tail))
STRUCTV(opval, M1(a) M1(b) M1(c)) STRUCTV(exin, M1(p) M1(more)) STRUCTV(flatx, M1(q) M1(e) M1(w)) STRUCTV(flat2, M1(in) M1(sk) M1(z)) STRUCTV(deepflat, M1(f) M1(c)) STRUCTV(extra, M1(a) M1(n) M1(ex)) STRUCTV(base, M1(ba) M1(bb)) STRUCTV(derived, M1(ba) M1(bb) M1(dl) M1(od)) STRUCTV(seen, M1(a) M1(sv) M1(raw) M1(rest))
STRUCTV(mix, M1(c) M1(o) M1(ps) M1(lv) M1(pe) M1(tk) M1(pt) M1(otk) M1(tr))
template <typename... Ts> Schema sch(tag<std::tuple<Ts...>>) { Schema s = prim(jm::TUP); (s.t.push_back(S<Ts>()), ...); return s; }
template <typename A, typename B> Schema sch(tag<std::pair<A, B>>) { Schema s = prim(jm::TUP); s.t = {S<A>(), S<B>()}; return s; }
template <typename... Ts> void to(const std::tuple<Ts...>& x, V& v) { v.k = jm::TUP; ToV t{v}; std::apply([&](auto&... e) { (t(e), ...); }, x); }
template <typename... Ts> void from(std::tuple<Ts...>& x, const V& v) { FromV t{v}; std::apply([&](auto&... e) { (t(e), ...); }, x); }
template <typename A, typename B> void to(const std::pair<A, B>& x, V& v) { v.k = jm::TUP; ToV t{v}; t(x.first); t(x.second); }
template <typename A, typename B> void from(std::pair<A, B>& x, const V& v) { FromV t{v}; t(x.first); t(x.second); }
STRUCTV(conts, M1(vl) M1(li) M1(dq) M1(ar) M1(ao) M1(tu) M1(pr) M1(ml) M1(um) M1(ol) M1(ov) M1(mo)) STRUCTV(seqs, M1(a) M1(b) M1(c) M1(d) M1(e) M1(f)) STRUCTV(combo, M1(a) M1(b) M1(c) M1(d) M1(e) M1(f) M1(g) M1(h)) STRUCTV(hold, M1(od) M1(an) M1(md) M1(pn) M1(os) M1(ts) M1(vs) M1(om)) STRUCTV(nest, M1(nm) M1(df) M1(va) M1(fl) M1(nu) M1(co) M1(mx) M1(oo))
#define SEQD(C, K) template <typename T> Schema sch(tag<C<T>>) { Schema s = prim(jm::K); s.e = S<T>(); return s; } \
    template <typename T> void to(const C<T>& x, V& v) { v.k = jm::K; for (const auto& e : x) { V t; to(e, t); v.a.push_back(std::move(t)); } } \
    template <typename T> void from(C<T>& x, const V& v) { x.clear(); for (auto& e : v.a) { T t{}; from(t, e); x.push_back(std::move(t)); } }
SEQD(std::vector, SEQ) SEQD(std::list, SEQ) SEQD(std::deque, SEQ)
template <typename T> Schema sch(tag<std::optional<T>>) { Schema s = prim(jm::OPT); s.e = S<T>(); return s; }
template <typename T> void to(const std::optional<T>& x, V& v) { v.k = jm::OPT; if (x) { v.a.resize(1); to(*x, v.a[0]); } }
template <typename T> void from(std::optional<T>& x, const V& v) { if (v.a.empty()) x.reset(); else { T t{}; from(t, v.a[0]); x = std::move(t); } }
template <typename T, size_t N> Schema sch(tag<std::array<T, N>>) { Schema s = prim(jm::FIX); s.e = S<T>(); s.n = N; return s; }
template <typename T, size_t N> void to(const std::array<T, N>& x, V& v) { v.k = jm::FIX; v.a.resize(N); for (size_t i = 0; i < N; ++i) to(x[i], v.a[i]); }
template <typename T, size_t N> void from(std::array<T, N>& x, const V& v) { for (size_t i = 0; i < N; ++i) from(x[i], v.a[i]); }
template <typename M> void mto(const M& x, V& v) { v.k = jm::MAP; std::map<std::string, V> t; for (auto& e : x) to(e.second, t[e.first]); for (auto& e : t) { v.keys.push_back(e.first); v.a.push_back(std::move(e.second)); } }
template <typename M> void mfrom(M& x, const V& v) { x.clear(); for (size_t i = 0; i < v.keys.size(); ++i) from(x[v.keys[i]], v.a[i]); }
template <typename T> Schema sch(tag<std::map<std::string, T>>) { Schema s = prim(jm::MAP); s.e = S<T>(); return s; } template <typename T> Schema sch(tag<std::unordered_map<std::string, T>>) { Schema s = prim(jm::MAP); s.e = S<T>(); return s; }
template <typename T> void to(const std::map<std::string, T>& x, V& v) { mto(x, v); } template <typename T> void from(std::map<std::string, T>& x, const V& v) { mfrom(x, v); }
template <typename T> void to(const std::unordered_map<std::string, T>& x, V& v) { mto(x, v); } template <typename T> void from(std::unordered_map<std::string, T>& x, const V& v) { mfrom(x, v); }
using oint = std::optional<int>; using ostr = std::optional<std::string>;
Schema sch(tag<leaf>) { return stru("leaf", {fld<int>("i"), fld<std::string>("s"), fld<oint>("o")}); }
Schema sch(tag<nums>) { return stru("nums", {fld<int8_t>("i8"), fld<int16_t>("i16"), fld<int32_t>("i32"), fld<int64_t>("i64"), fld<uint8_t>("u8"), fld<uint16_t>("u16"), fld<uint32_t>("u32"), fld<uint64_t>("u64"), fld<bool>("b"), fld<float>("f"), fld<double>("d")}); }
Schema sch(tag<named>) { return stru("named", {fld<int>("a", 0, "new-a"), fld<std::string>("b", 0, nullptr, {"b_old", "b_older"}), fld<int>("c", 0, "cc", {"c", "c_2", "c_3"}), fld<oint>("d", 0, nullptr, {"dd"})}); }
Schema sch(tag<dflt>) { return stru("dflt", {def(fld<int>("a"), 7), def(fld<std::string>("b", 0, "bb"), 0, "text"), def(fld<oint>("c"), 3), fld<std::vector<int>>("d", jm::ALLOWMISS), def(fld<uint8_t>("e", 0, nullptr, {"e_old"}), 200), fld<int>("f")}); }
Schema sch(tag<skips>) { return stru("skips", {fld<int>("keep"), fld<int>("both", jm::SKIPS | jm::SKIPD), fld<int>("ss", jm::SKIPS), fld<int>("sd", jm::SKIPD), fld<std::string>("both2", jm::SKIPS | jm::SKIPD)}); }
Schema sch(tag<valid>) { return stru("valid", {rng(fld<int>("a"), -5, 100), rng(fld<double>("b"), 0, HUGE_VAL), rng(fld<uint8_t>("c", 0, nullptr, {"c1"}), 0, 10), def(rng(fld<int>("d"), 0, 1000), -1)}); }
Schema sch(tag<nullish>) { return stru("nullish", {fld<oint>("a"), fld<ostr>("b", jm::SKIPNULL), fld<oint>("c", jm::EMITNULL), fld<std::string>("d", jm::SKIPEMPTY | jm::ALLOWMISS), fld<std::vector<int>>("e", jm::SKIPEMPTY | jm::ALLOWMISS), fld<std::map<std::string, int>>("f", jm::SKIPEMPTY | jm::ALLOWMISS)}); }
Schema sch(tag<inner>) { return stru("inner", {fld<int>("fa"), fld<std::string>("fb", 0, "f-b", {"fb_old"}), fld<std::optional<leaf>>("fc")}); }
Schema sch(tag<flat>) { return stru("flat", {fld<int>("id"), fld<inner>("in", jm::FLAT), fld<std::map<std::string, int>>("ex", jm::EXTRA), fld<std::string>("tail")}); }
Schema sch(tag<flat2>) { return stru("flat2", {fld<inner>("in", jm::FLAT), fld<skips>("sk", jm::FLAT), fld<double>("z")}); }
Schema sch(tag<deepflat>) { return stru("deepflat", {fld<flat2>("f", jm::FLAT), fld<color>("c")}); }
Schema sch(tag<extra>) { return stru("extra", {fld<int>("a", 0, nullptr, {"a1"}), fld<oint>("n"), fld<std::unordered_map<std::string, std::optional<leaf>>>("ex", jm::EXTRA)}); }
Schema sch(tag<opval>) { return stru("opval", {rng(fld<oint>("a"), 0, 500), rng(fld<oint>("b", 0, "bb", {"b_old"}), 0, 500), fld<int>("c")}); }
Schema sch(tag<exin>) { return stru("exin", {fld<int>("p", 0, nullptr, {"p_old"}), fld<std::map<std::string, int>>("more", jm::EXTRA)}); }
Schema sch(tag<flatx>) { return stru("flatx", {fld<int>("q", 0, "quu"), fld<exin>("e", jm::FLAT), fld<oint>("w", 0, nullptr, {"w1"})}); }
Schema sch(tag<base>) { return stru("base", {fld<int>("ba"), fld<std::string>("bb")}); }
Schema sch(tag<derived>) { return stru("derived", {fld<int>("ba"), fld<std::string>("bb"), fld<leaf>("dl"), fld<odd>("od")}); }
Schema sch(tag<seen>) { return stru("seen", {fld<int>("a"), fld<decltype(seen::sv)>("sv"), fld<js::view>("raw"), fld<std::map<std::string, js::view>>("rest", jm::EXTRA)}); }
#ifdef KLB_YAML
STRUCTV(peek, M1(a) M1(sv) M1(vs))
Schema sch(tag<peek>) { return stru("peek", {fld<int>("a"), fld<std::string_view>("sv"), fld<std::vector<std::string_view>>("vs", jm::ALLOWMISS)}); }
#endif
Schema sch(tag<mix>) { return stru("mix", {fld<color>("c"), fld<odd>("o"), fld<kl::enum_set<perm>>("ps"), fld<level>("lv"), fld<plain_e>("pe"), fld<ticket>("tk"), fld<point>("pt"), fld<std::optional<ticket>>("otk"), fld<triple>("tr")}); }
Schema sch(tag<conts>) { return stru("conts", {fld<std::vector<leaf>>("vl"), fld<std::list<int>>("li"), fld<std::deque<std::string>>("dq"), fld<std::array<int, 3>>("ar"), fld<std::array<oint, 2>>("ao"), fld<std::tuple<int, std::string, std::optional<bool>>>("tu"), fld<std::pair<std::string, uint16_t>>("pr"),
    fld<std::map<std::string, leaf>>("ml"), fld<std::unordered_map<std::string, std::vector<int>>>("um"), fld<std::optional<leaf>>("ol"), fld<std::optional<std::vector<oint>>>("ov"), fld<std::map<std::string, oint>>("mo")}); }
Schema sch(tag<seqs>) { return stru("seqs", {fld<int>("a", jm::SKIPS), fld<std::string>("b"), fld<int>("c", jm::SKIPD), def(fld<int>("d", jm::ALLOWMISS), 4), fld<oint>("e"), fld<int>("f", jm::ALLOWMISS)}); }
Schema sch(tag<combo>) { return stru("combo", {fld<oint>("a", jm::EMITNULL, "aa", {"a_1", "a_2"}), def(fld<std::string>("b", jm::SKIPEMPTY, "bb", {"b_1"}), 0, "zz"), def(fld<oint>("c", jm::SKIPNULL, nullptr, {"c_1"}), 11),
    def(rng(fld<int>("d", jm::ALLOWMISS, nullptr, {"d_1", "d_2"}), -5, 50), 5), fld<std::optional<leaf>>("e", jm::EMITNULL, nullptr, {"e_1"}), fld<std::vector<int>>("f", jm::SKIPEMPTY | jm::ALLOWMISS, "ff", {"f"}), def(fld<int>("g", jm::SKIPS, "gg", {"g"}), 3), def(rng(fld<uint8_t>("h", 0, "hh"), 2, 200), 1)}); }
Schema sch(tag<hold>) { return stru("hold", {fld<std::optional<dflt>>("od"), fld<std::array<nullish, 2>>("an", jm::ALLOWMISS), fld<std::map<std::string, dflt>>("md"), fld<std::pair<int, nullish>>("pn", jm::ALLOWMISS), fld<std::optional<skips>>("os"), fld<std::tuple<skips, int>>("ts", jm::ALLOWMISS), fld<std::vector<skips>>("vs"), fld<std::optional<std::map<std::string, int>>>("om")}); }
Schema sch(tag<nest>) { return stru("nest", {fld<named>("nm", jm::ALLOWMISS), fld<dflt>("df"), fld<std::optional<valid>>("va", 0, "v-a"), fld<std::vector<flat>>("fl"), fld<std::map<std::string, nullish>>("nu"), fld<std::optional<conts>>("co", jm::SKIPNULL), fld<mix>("mx", jm::ALLOWMISS), fld<std::optional<oint>>("oo")}); }
}
// ------------------------------------------------------------------------------------------------ type-erased operations
namespace {
using namespace jt; using jm::V; using jm::Schema; using jm::S; using jm::oint;
struct Ops { const char* name; const Schema* (*s)(); void* (*make)(const V*); void (*kill)(void*); void (*tov)(const void*, V&); void (*deser)(void*, const RV&, int how); void (*patch)(void*, const RV&, int how); void (*dump)(const void*, std::string&, int how); void (*ser)(const void*, DOC&, int how); };
template <typename T> struct O {
    static void* make(const V* v) { T* x = new T{}; try { if (v) from(*x, *v); } catch (...) { delete x; throw; } return x; }
    static void kill(void* p) { delete (T*)p; }
    static void tov(const void* p, V& v) { to(*(const T*)p, v); }
    static void deser(void* p, const RV& j, int how)
    {
        T& x = *(T*)p; js::deserialize_context c;
        switch (how % 4) { case 0: js::deserialize(x, j); break; case 1: js::deserialize(x, j, c); break; case 2: kl::serialization::deserialize(x, j, c); break; case 3: x = js::deserialize<T>(j); break; }
    }
    static void patch(void* p, const RV& j, int how)
    { T& x = *(T*)p; js::deserialize_context c; switch (how % 3) { case 0: js::patch(x, j); break; case 1: js::patch(x, j, c); break; case 2: kl::serialization::patch(x, j, c); break; } }
#ifdef KLB_YAML
    static void dump(const void* p, std::string& out, int how)
    {
        const T& x = *(const T*)p; YAML::Emitter e; bool sn = how < 4;
        switch (how % 4) {
        case 0: out = js::dump(x); return;
        case 1: { e.SetMapFormat(YAML::Flow); e.SetSeqFormat(YAML::Flow); js::dump_context c{e}; js::dump(x, c); break; }
        case 2: { js::dump_context c{e, sn}; js::dump(x, c); break; }
        case 3: { js::dump_context c{e, sn}; kl::serialization::dump(x, c); break; } }
        out = e.c_str();
    }
    static void ser(const void* p, DOC& d, int how)
    {
        const T& x = *(const T*)p; bool sn = how < 4;
        switch (how % 4) {
        case 0: d = js::serialize(x); break;
        case 1: case 2: { js::serialize_context c{sn}; d = js::serialize(x, c); break; }
        case 3: { js::serialize_context c{sn}; d = kl::serialization::serialize(x, c); break; } }
    }
#else
    static void dump(const void* p, std::string& out, int how)
    {
        const T& x = *(const T*)p; rapidjson::StringBuffer b; bool sn = how < 4;
        switch (how % 4) {
        case 0: out = js::dump(x); return; case 1: out = js::pretty_dump(x); return;
        case 2: { rapidjson::Writer<rapidjson::StringBuffer> w{b}; js::dump_context c{w, sn}; js::dump(x, c); break; }
        case 3: { rapidjson::PrettyWriter<rapidjson::StringBuffer> w{b}; js::dump_context c{w, sn}; kl::serialization::dump(x, c); break; } }
        out = std::string(b.GetString(), b.GetSize());
    }
    static void ser(const void* p, DOC& d, int how)
    {
        const T& x = *(const T*)p; bool sn = how < 4;
        switch (how % 4) {
        case 0: d = js::serialize(x); break;
        case 1: { js::serialize_context c{d, sn}; RV v = js::serialize(x, c); static_cast<RV&>(d) = v; break; }
        case 2: { js::owning_serialize_context c{sn}; RV v = js::serialize(x, c); d.CopyFrom(v, d.GetAllocator()); break; }
        case 3: { js::serialize_context c{d.GetAllocator(), sn}; RV v = kl::serialization::serialize(x, c); static_cast<RV&>(d) = v; break; } }
    }
#endif
    static Ops ops(const char* n)
    {
#ifdef KLB_YAML
        if constexpr (std::is_same_v<T, peek>) return {n, &S<T>, make, kill, tov, deser, patch, nullptr, nullptr}; // string views can only be read
        else
#endif
        return {n, &S<T>, make, kill, tov, deser, patch, dump, ser};
    }
};
// which calls leave null fields out
bool skip_dump(int how) { return how % 4 < 2 || how < 4; }
bool skip_ser(int how) { return how % 4 == 0 || how < 4; }
#ifdef KLB_YAML
#define TYPES_Y(X) X(peek)
#else
#define TYPES_Y(X)
#endif
#define TYPES(X) X(leaf) X(nums) X(named) X(dflt) X(skips) X(valid) X(nullish) X(flat) X(flat2) X(deepflat) X(extra) X(derived) X(seen) X(mix) X(conts) X(nest) X(opval) X(flatx) X(hold) X(seqs) X(combo) TYPES_Y(X)
const Ops* kTypes; int kNTypes;
using vleaf = std::vector<leaf>; using mapflat = std::map<std::string, flat>; using tupl = std::tuple<leaf, oint, std::string>; using omix = std::optional<mix>;
void types()
{
#define X(T) O<T>::ops(#T),
    static const Ops t[] = {TYPES(X) O<vleaf>::ops("vector<leaf>"), O<mapflat>::ops("map<flat>"), O<tupl>::ops("tuple"), O<omix>::ops("optional<mix>"), O<ticket>::ops("ticket"), O<int64_t>::ops("int64"), O<std::string>::ops("string")};
    kTypes = t; kNTypes = sizeof t / sizeof *t;
}
// ------------------------------------------------------------------------------------------------ generation (harness scope)
const char* kStr[] = {"", "a", "plain text", "a longer text that certainly needs heap memory", "quo\"te\\back/slash", "tab\tnew\nline", "\xc4\x85\xe2\x82\xac", "T-12", "null"};
const std::string kKeys[] = {"k1", "k2", "a key that is long enough to live on the heap", "zz", "", "fa2", "x\"y", std::string("k1\0tail", 7)};
const int64_t kInts[] = {0, 1, -1, 7, 42, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 9007199254740993ll, INT64_MAX, INT64_MIN};
const double kDbl[] = {0.5, 0, -2.25, 3, 1e10, -1e-3, 1e300, 123456.789, 1.0 / 3, 0.1 + 0.2, 98765432109876.543, -1.23456789012345e-7};
bool g_short; // numbers whose text is short: what yaml-cpp's emitter does with longer ones when memory fails is its own affair
V gen(const Schema& s, int depth)
{
    V v = jm::defv(s); auto small = [&] { return choose(PROG, depth > 2 ? 2 : 4); };
    auto lots = [&] { bool leaf = s.e->k != jm::STRUCT && s.e->k != jm::SEQ && s.e->k != jm::MAP && s.e->k != jm::FIX && s.e->k != jm::TUP && s.e->k != jm::OPT; uint32_t n = small(); if (leaf && choose(PROG, 20) == 19) { n = 5 + choose(PROG, 40); } return n; }; // now and then a container that outgrows whatever a small one fits in
    auto pick = [&](int64_t lo, int64_t hi) { int64_t x = kInts[choose(PROG, 24)]; if (g_short && (x > 99999999999999ll || x < -9999999999999ll)) x &= 63; return x < lo || x > hi ? x & 63 : x; };
    switch (s.k) {
    case jm::I8: v.i = pick(-128, 127); break; case jm::I16: v.i = pick(-32768, 32767); break; case jm::I32: v.i = pick(INT32_MIN, INT32_MAX); break; case jm::I64: v.i = pick(INT64_MIN, INT64_MAX); break;
    case jm::U8: v.u = (uint64_t)pick(0, 255); break; case jm::U16: v.u = (uint64_t)pick(0, 65535); break; case jm::U32: v.u = (uint64_t)pick(0, UINT32_MAX); break; case jm::U64: v.u = (uint64_t)pick(0, INT64_MAX); if (choose(PROG, 4) == 3 && !g_short) v.u = UINT64_MAX - choose(PROG, 2); break;
    case jm::BOOL: v.i = choose(PROG, 2); break; case jm::F64: v.d = kDbl[choose(PROG, g_short ? 4 : 12)]; break; case jm::F32: v.d = (float)kDbl[choose(PROG, g_short ? 4 : 6)]; break;
    case jm::STR: { uint32_t k = choose(PROG, 32); if (k == 31) { v.s.clear(); for (uint32_t i = 0, n = 30u << choose(PROG, 6); v.s.size() < n; ++i) v.s += "long text "; } else if (k % 10 == 9) v.s = std::string("nul\0in", 6); else v.s = kStr[k % 10]; break; }
    case jm::ENUM: v.i = s.names[choose(PROG, (uint32_t)s.names.size())].first; break;
    case jm::PENUM: v.i = pick(0, s.e->k == jm::U8 ? 255 : INT32_MAX); break;
    case jm::ESET: v.u = choose(PROG, 8); break;
    case jm::SEQ: for (uint32_t n = lots(); n--;) v.a.push_back(gen(*s.e, depth + 1)); break;
    case jm::FIX: for (auto& x : v.a) x = gen(*s.e, depth + 1); break;
    case jm::TUP: for (size_t i = 0; i < s.t.size(); ++i) v.a[i] = gen(*s.t[i], depth + 1); break;
    case jm::OPT: if (choose(PROG, 3)) v.a.push_back(gen(*s.e, depth + 1)); break;
    case jm::MAP: { std::map<std::string, V> m; uint32_t total = lots(); for (uint32_t n = total; n--;) { std::string k = kKeys[choose(PROG, 8)]; if (total > 4) k += std::to_string(n); m[k] = gen(*s.e, depth + 1); } for (auto& e : m) { v.keys.push_back(e.first); v.a.push_back(e.second); } break; }
    case jm::VIEW: { static const char* d[] = {"null", "1", "\"view of a text\"", "[1,{\"q\":true}]", "{}"}; v.s = d[choose(PROG, 5)]; J j; if (jparse(v.s, j)) v.s = jtext(j); break; }
    case jm::TICKET: v.i = choose(PROG, 1000); break;
    case jm::TRIPLE: v.a[0].i = pick(INT32_MIN, INT32_MAX); v.a[1].s = kStr[choose(PROG, 9)]; if (choose(PROG, 2)) { v.a[2].a.resize(1); v.a[2].a[0].k = jm::I32; v.a[2].a[0].i = pick(-128, 127); } v.a[3].u = (uint64_t)pick(0, 255); break;
    case jm::POINT: v.a[0].i = pick(-128, 127); v.a[1].i = pick(INT32_MIN, INT32_MAX); break;
    case jm::STRUCT: for (size_t i = 0; i < s.f.size(); ++i) { v.a[i] = gen(*s.f[i].s, depth + 1); if (s.f[i].flags & jm::VALID) { if (v.a[i].k == jm::OPT) { if (v.a[i].a.empty()) v.a[i].a.push_back(jm::defv(*s.f[i].s->e)); v.a[i].a[0].i &= 255; } else if (v.a[i].k == jm::F64) v.a[i].d = 1.5; else if (v.a[i].k == jm::U8) v.a[i].u %= 11; else v.a[i].i = (v.a[i].i & 63); } } break;
    }
    return v;
}
J scalar()
{
    switch (choose(FAULT, 8)) { case 0: return J::null(); case 1: return J::boolean(choose(FAULT, 2)); case 2: case 3: return J::integer(kInts[choose(FAULT, 24)]); case 4: return choose(FAULT, 3) == 2 ? J::big(UINT64_MAX - 1) : J::dbl(kDbl[choose(FAULT, 8)]); case 5: { static const char* w[] = {"green", "bee", "x", "T-7", "r", "T-", "0x1F", "yes", "~", "1e2", "-0", "+5", " 7", "1 ", ".inf", "true"}; uint32_t k = choose(FAULT, DOCWORDS); return J::str(k < 9 ? kStr[k] : w[k - 9]); } case 6: return J::arr(); default: return J::obj(); }
}
const char* kNames[] = {"i", "s", "o", "new-a", "p", "p_old", "w", "k1", "a", "b", "b_old", "b_older", "cc", "c", "c_2", "dd", "bb", "e_old", "keep", "both", "ss", "sd", "f-b", "fb", "fb_old", "fc", "id", "tail", "z", "unknown", "a1", "n", "px", "py", "d", "e", "f", "fa", "rest", "ex", "in"};
J* anynode(J& j, int depth) { size_t n = j.a.size() + j.o.size(); if (!n || (depth && choose(FAULT, 3) == 0)) return &j; uint32_t k = choose(FAULT, (uint32_t)n); return anynode(k < j.a.size() ? j.a[k] : j.o[k - j.a.size()].second, depth + 1); }
J* anyparent(J& j) { J* best = nullptr; J* p = &j; for (;;) { size_t n = p->a.size() + p->o.size(); if (!n) return best; best = p; if (choose(FAULT, 2)) return best; uint32_t k = choose(FAULT, (uint32_t)n); p = k < p->a.size() ? &p->a[k] : &p->o[k - p->a.size()].second; } }
void jdamage(J& j) // damage that keeps the text a JSON document
{
    switch (choose(FAULT, 9)) {
    case 0: *anynode(j, 0) = scalar(); sim::fault_fired("value-replaced"); break;
    case 1: if (J* p = anyparent(j)) { if (!p->a.empty()) p->a.erase(p->a.begin() + choose(FAULT, (uint32_t)p->a.size())); else p->o.erase(p->o.begin() + choose(FAULT, (uint32_t)p->o.size())); sim::fault_fired("member-lost"); } break;
    case 2: if (J* p = anyparent(j)) { if (!p->a.empty()) { J c = p->a[choose(FAULT, (uint32_t)p->a.size())]; p->a.push_back(c); } else { auto c = p->o[choose(FAULT, (uint32_t)p->o.size())]; if (choose(FAULT, 2)) c.second = scalar(); p->o.push_back(c); } sim::fault_fired("member-duplicated"); } break;
    case 3: if (J* p = anyparent(j)) { if (p->o.size()) { p->o[choose(FAULT, (uint32_t)p->o.size())].first = kNames[choose(FAULT, sizeof kNames / sizeof *kNames)]; sim::fault_fired("member-renamed"); } } break;
    case 4: { J* p = j.t == J::OBJ && choose(FAULT, 2) ? &j : anynode(j, 0); if (p->t == J::OBJ) { const char* k = kNames[choose(FAULT, sizeof kNames / sizeof *kNames)]; p->add(k, scalar()); sim::fault_fired("member-added"); } break; }
    case 5: if (J* p = anyparent(j)) { if (p->o.size() > 1) { std::swap(p->o[0], p->o[choose(FAULT, (uint32_t)p->o.size())]); sim::fault_fired("members-reordered"); } else if (p->a.size() > 1) { std::swap(p->a[0], p->a[choose(FAULT, (uint32_t)p->a.size())]); sim::fault_fired("members-reordered"); } } break;
    case 6: { J* p = choose(FAULT, 2) ? &j : anynode(j, 0); if (p->t == J::OBJ) { J a = J::arr(); for (auto& m : p->o) a.a.push_back(m.second); if (choose(FAULT, 3) == 2) a.a.insert(a.a.begin() + (long)choose(FAULT, (uint32_t)a.a.size() + 1), scalar()); *p = a; sim::fault_fired("object-became-array"); } break; }
    case 7: if (J* p = anyparent(j)) { J& x = !p->a.empty() ? p->a[choose(FAULT, (uint32_t)p->a.size())] : p->o[choose(FAULT, (uint32_t)p->o.size())].second; x = J::null(); sim::fault_fired("value-nulled"); } break;
    case 8: if (J* p = anyparent(j)) { J& x = !p->a.empty() ? p->a[choose(FAULT, (uint32_t)p->a.size())] : p->o[choose(FAULT, (uint32_t)p->o.size())].second; if (x.t == J::INT) { x = J::integer(kInts[choose(FAULT, 24)]); sim::fault_fired("number-changed"); } } break;
    }
}
// ------------------------------------------------------------------------------------------------ operations
enum Out { RES_OK, RES_DESER, RES_PARSE, RES_LOGIC, RES_NOMEM, RES_USER, RES_OTHER };
const char* kOut[] = {"success", "deserialize_error", "parse_error", "std::logic_error", "bad_alloc", "the user's exception", "another exception"};
struct Result { Out o = RES_OK; std::string msg; V v; bool hasv = false; J j; bool hasj = false; };
enum OpK { OP_DUMP, OP_SER, OP_PARSE_DESER, OP_PARSE_PATCH, OP_PARSE };
struct Op { OpK k; int type; int how; V obj; bool fresh; std::string text; bool jok; J doc; bool usable = true; };
#ifdef KLB_YAML
const char* kProps = "Y01,Y02,Y03";
#else
const char* kProps = "J01,J02,J03,J04";
#endif
const char* g_prop3 = P_DOCS; bool g_failed_before; const char* g_prop = "";

template <typename F> Out guarded(F f, std::string& msg)
{
    try { f(); return RES_OK; }
    catch (const kl::serialization::deserialize_error& e) { HarnessScope h; msg = e.what(); return RES_DESER; }
    catch (const kl::serialization::parse_error& e) { HarnessScope h; msg = e.what(); return RES_PARSE; }
    catch (const std::bad_alloc&) { return RES_NOMEM; }
    catch (const std::logic_error& e) { HarnessScope h; msg = e.what(); return RES_LOGIC; }
    catch (const user_fault&) { return RES_USER; }
    catch (const std::exception& e) { HarnessScope h; msg = e.what(); return RES_OTHER; }
    catch (...) { return RES_OTHER; }
}
// expected outcome of an operation starting from value `start`
bool has_nul(const J& j) { if (j.s.find('\0') != std::string::npos) return true; for (auto& x : j.a) if (has_nul(x)) return true; for (auto& m : j.o) if (m.first.find('\0') != std::string::npos || has_nul(m.second)) return true; return false; } // a message is a C string: it ends there
struct Expect { Out o = RES_OK; V v; J j; bool lenient = false; std::vector<std::string> path; bool nul = false, badkey = false; };
Expect expect(const Op& op, const V* start)
{
    const Schema& s = *kTypes[op.type].s(); Expect e;
    if (op.k == OP_DUMP || op.k == OP_SER) { bool sn = op.k == OP_DUMP ? skip_dump(op.how) : skip_ser(op.how); e.o = jm::ser(s, op.obj, sn, e.j) == jm::S_OK ? RES_OK : RES_LOGIC; return e; }
    if (!op.jok) { e.o = RES_PARSE; return e; }
    e.j = op.doc; if (op.k == OP_PARSE) return e;
    jm::Err er; e.lenient = jm::has_dup(op.doc); e.nul = has_nul(op.doc);
    e.v = start ? *start : jm::defv(s);
    if (op.k == OP_PARSE_DESER && op.how % 4 == 3) e.v = jm::defv(s); // returns a new value
    bool ok = op.k == OP_PARSE_DESER ? jm::deser(s, &op.doc, e.v, er) : jm::patch(s, &op.doc, e.v, er);
    e.path = er.path; e.badkey = er.badkey; e.o = ok ? RES_OK : RES_DESER; return e;
}
#ifdef KLB_YAML
bool states(const J& x, const J& e) { return jstates(x, e) || jtext(x) == jtext(e); }
#else
bool states(const J& x, const J& e) { return jeq(x, e) || jtext(x) == jtext(e); }
#endif
void judge(const Op& op, const Expect& e, const Result& r, uint32_t fired, uint32_t userfired, const char* when)
{
    const char* tn = kTypes[op.type].name; static const char* kn[] = {"dump", "serialize", "deserialize", "patch", "parse"};
    char where[600]; snprintf(where, sizeof where, "%s %s (form %d, %s)", kn[op.k], tn, op.how, when);
    if (fired) g_failed_before = true;
    const char* P = fired ? P_MEMORY : sim::num_events() && g_mt ? P_THREADS : g_failed_before ? P_MEMORY "," P_DOCS : g_prop3;
    if (r.o == RES_NOMEM && fired) { sim::probe("out-of-memory"); return; }
#ifdef KLB_YAML // yaml-cpp converts scalars with iostreams, which turn a memory failure into a failed conversion
    if (fired && (r.o == RES_DESER || r.o == RES_PARSE)) { sim::probe("out-of-memory-reported-as-error"); return; }
#endif
    if (r.o == RES_USER && userfired) { sim::probe("user-exception"); return; }
    if (e.lenient && (r.o == RES_OK || r.o == RES_DESER)) { sim::probe("duplicate-members"); return; }
    if (r.o != e.o) sim::violation(P, "outcome", "%s: %s %s, expected %s; document %.300s", where, kOut[r.o], r.msg.substr(0, 160).c_str(), kOut[e.o], op.text.c_str());
    if ((r.o == RES_DESER || r.o == RES_PARSE) && r.msg.empty()) sim::violation(P, "message", "%s: the error has no message", where);
    if (r.o == RES_DESER && !e.nul && !e.badkey) for (auto& n : e.path) if (r.msg.find(n) == std::string::npos) sim::violation(P, "message", "%s: the message '%s' does not name the offending field %s; document %.300s", where, r.msg.substr(0, 200).c_str(), n.c_str(), op.text.c_str());
    if (r.o == RES_DESER) sim::probe("rejected");
    if (r.o == RES_PARSE) sim::probe("unparsable");
    if (r.o == RES_LOGIC) sim::probe("extra-field-collision");
    if (r.o != RES_OK) return;
    if (r.hasj && !states(r.j, e.j)) sim::violation(P, "document", "%s: produced %.400s, expected %.400s", where, jtext(r.j).c_str(), jtext(e.j).c_str());
    if (r.hasv && !jm::veq(r.v, e.v)) sim::violation(P, "value", "%s: read %.300s, expected %.300s; document %.300s", where, jm::vtext(r.v).c_str(), jm::vtext(e.v).c_str(), op.text.c_str());
}
void value_of(const Ops& t, const void* x, V& out) // reads the object as a user would (memory errors are noticed)
{
    V tmp; { SutScope s; V v; t.tov(x, v); HarnessScope h; tmp = v; } out = tmp;
}
#ifdef KLB_YAML
using TEXT = const char*; TEXT mktext(const char* p, size_t) { return p; } constexpr size_t kTermed = 1;
#else
using TEXT = std::string_view; TEXT mktext(const char* p, size_t n) { return {p, n}; } constexpr size_t kTermed = 0;
#endif
struct Fault { uint32_t k = 0; bool sticky = false; uint32_t user = 0; };
// one attempt of an operation; everything it creates is destroyed again
void attempt(const Op& op, const Fault& f, bool retry, const char* when)
{
    const Ops& t = kTypes[op.type]; Result r; uint32_t fired = 0, uf = 0; void* x = nullptr; Expect e = expect(op, op.fresh ? nullptr : &op.obj);
    auto armed = [&](auto fn) { { HarnessScope h; g_user_arm = f.user; g_user_fired = 0; } sim::arm_alloc(f.k, f.sticky); Out o = guarded(fn, r.msg); fired += sim::disarm_alloc(); { HarnessScope h; g_user_arm = 0; uf += g_user_fired; } return o; };
    if (op.k == OP_DUMP || op.k == OP_SER) {
        { SutScope s; x = t.make(&op.obj); }
        for (int round = 0; round < (retry ? 2 : 1); ++round) {
            r = Result{}; fired = uf = 0;
            if (op.k == OP_DUMP) {
                std::string text; bool ok; 
                { SutScope s; std::string out; r.o = round ? guarded([&] { t.dump(x, out, op.how); }, r.msg) : armed([&] { t.dump(x, out, op.how); }); HarnessScope h; text = out; }
                if (r.o == RES_OK) { ok = jparse(text, r.j); r.hasj = true; if (!ok) sim::violation(fired ? P_MEMORY : g_failed_before ? P_MEMORY "," P_DOCS : g_prop3, "document", "dump of %s is not a " DOCKIND " document: %.300s", t.name, text.c_str()); }
            } else {
                SutScope s; { DOC d; r.o = round ? guarded([&] { t.ser(x, d, op.how); }, r.msg) : armed([&] { t.ser(x, d, op.how); });
                    if (r.o == RES_OK) { if (!retry) { t.kill(x); x = nullptr; } HarnessScope h; r.j = jfrom(d); r.hasj = true; } }
            }
            judge(op, e, r, round ? 0 : fired, round ? 0 : uf, round ? "repeated after the failure" : when);
        }
    } else {
        SutScope s; { size_t tn = op.text.size(); char* tp = (char*)sim::raw_alloc(tn + kTermed); { HarnessScope h; memcpy(tp, op.text.c_str(), tn + kTermed); } TEXT text = mktext(tp, tn); DOC d; bool parsed = false;
        r.o = armed([&] { d = js::parse(text); });
        if (r.o == RES_NOMEM || r.o == RES_USER) { { HarnessScope h; judge(op, e, r, fired, uf, when); } r = Result{}; fired = uf = 0; r.o = guarded([&] { d = js::parse(text); }, r.msg); }
        parsed = r.o == RES_OK; { HarnessScope h; if (tn) memset(tp, '#', tn); } sim::raw_free(tp);
        J before; if (parsed) { HarnessScope h; before = jfrom(d); }
        if (!parsed || op.k == OP_PARSE) { HarnessScope h; if (parsed) { r.j = jfrom(d); r.hasj = true; } if (!op.jok || op.k == OP_PARSE || !parsed) judge(op, e, r, fired, uf, when); }
        if (parsed && op.k != OP_PARSE) {
            x = t.make(op.fresh ? nullptr : &op.obj);
            for (int round = 0; round < (retry ? 2 : 1); ++round) {
                fired = uf = 0; auto go = [&] { if (op.k == OP_PARSE_DESER) t.deser(x, d, op.how); else t.patch(x, d, op.how); };
                r.msg.clear(); r.o = round ? guarded(go, r.msg) : armed(go);
                HarnessScope h;
                if (r.o == RES_OK) { r.v = V{}; value_of(t, x, r.v); r.hasv = true; }
                judge(op, e, r, round ? 0 : fired, round ? 0 : uf, round ? "repeated after the failure" : when);
                if (J now = jfrom(d); jtext(now) != jtext(before)) sim::violation(fired ? P_MEMORY "," P_DOCS : g_prop3, "document-changed", "%s %s: reading changed the document from %.300s to %.300s", op.k == OP_PARSE_DESER ? "deserialize" : "patch", t.name, jtext(before).c_str(), jtext(now).c_str());
                if (!round && retry) { V cur; value_of(t, x, cur); e = expect(op, &cur); }
            }
        } }
    }
    if (x) { SutScope s; t.kill(x); }
#ifdef KLB_YAML
    if (jm::g_viewed) for (auto& d : *jm::g_viewed) { J now = jfrom(d.first), was; jparse(d.second, was); if (jtext(now) != jtext(was)) sim::violation(g_failed_before ? P_MEMORY "," P_DOCS : g_prop3, "document-changed", "%s: a document that a view looked into was changed from %.200s to %.200s", t.name, d.second.c_str(), jtext(now).c_str()); }
    { SutScope s; delete jm::g_viewed; jm::g_viewed = nullptr; }
#endif
}
const char* kOpN[] = {"dump", "serialize", "deserialize", "patch", "parse"};
void put_collisions(const Schema& s, V& obj)
{
    if (s.k != jm::STRUCT) return;
    for (size_t i = 0; i < s.f.size(); ++i) {
        if (s.f[i].flags & jm::FLAT) put_collisions(*s.f[i].s, obj.a[i]);
        if (!(s.f[i].flags & jm::EXTRA) || s.f[i].s->e->k == jm::VIEW || choose(PROG, 6) != 5) continue;
        V& m = obj.a[i]; static const char* c[] = {"id", "fb_old", "a1", "quu", "w1", "p_old"}; std::string k = c[choose(PROG, 6)]; bool dup = false; for (auto& q : m.keys) if (q == k) dup = true;
        if (!dup) { size_t p = 0; while (p < m.keys.size() && m.keys[p] < k) ++p; m.keys.insert(m.keys.begin() + (long)p, k); m.a.insert(m.a.begin() + (long)p, jm::defv(*s.f[i].s->e)); }
    }
}
// documents by producers that know the fields under their other names, several at once, or left some out
void other_names(const Schema& s, J& j)
{
    switch (s.k) {
    case jm::OPT: if (j.t != J::NUL) other_names(*s.e, j); return;
    case jm::SEQ: case jm::FIX: for (auto& x : j.a) other_names(*s.e, x); return;
    case jm::TUP: for (size_t i = 0; i < j.a.size() && i < s.t.size(); ++i) other_names(*s.t[i], j.a[i]); return;
    case jm::MAP: for (auto& m : j.o) other_names(*s.e, m.second); return;
    case jm::STRUCT: break;
    default: return;
    }
    if (j.t != J::OBJ) return;
    for (auto& f : s.f) {
        if (f.flags & jm::FLAT) { other_names(*f.s, j); continue; }
        const char* canon = f.rename ? f.rename : f.name; size_t at = 0; while (at < j.o.size() && j.o[at].first != canon) ++at;
        if (at == j.o.size()) continue;
        other_names(*f.s, j.o[at].second);
        if (f.aliases.empty()) { if (choose(PROG, 16) == 15) j.o.erase(j.o.begin() + (long)at); continue; }
        uint32_t na = (uint32_t)f.aliases.size(), k = choose(PROG, 4);
        if (k == 2) { j.o[at].first = f.aliases[choose(PROG, na)]; sim::probe("alias-used"); }
        for (uint32_t a = 0; a < na; ++a) if (choose(PROG, 5) == 4 && !j.find(f.aliases[a])) {
            J x; if (choose(PROG, 4) == 3) x = J::null(); else if (jm::ser(*f.s, gen(*f.s, 2), choose(PROG, 2), x) != jm::S_OK) continue;
            sim::probe("several-names-at-once"); j.add(f.aliases[a], std::move(x)); if (choose(PROG, 2)) std::swap(j.o.back(), j.o[choose(PROG, (uint32_t)j.o.size())]); }
    }
}
// a producer also writes the fields that this side only reads
void complete(const Schema& s, const V& v, J& j)
{
    switch (s.k) {
    case jm::OPT: if (j.t != J::NUL && !v.a.empty()) complete(*s.e, v.a[0], j); return;
    case jm::SEQ: case jm::FIX: for (size_t i = 0; i < j.a.size() && i < v.a.size(); ++i) complete(*s.e, v.a[i], j.a[i]); return;
    case jm::TUP: for (size_t i = 0; i < j.a.size() && i < s.t.size(); ++i) complete(*s.t[i], v.a[i], j.a[i]); return;
    case jm::MAP: for (auto& m : j.o) for (size_t i = 0; i < v.keys.size(); ++i) if (v.keys[i] == m.first) complete(*s.e, v.a[i], m.second); return;
    case jm::STRUCT: break;
    default: return;
    }
    if (j.t != J::OBJ) return;
    for (size_t i = 0; i < s.f.size(); ++i) {
        auto& f = s.f[i]; if (f.flags & jm::FLAT) { complete(*f.s, v.a[i], j); continue; }
        const char* canon = f.rename ? f.rename : f.name; size_t at = 0; while (at < j.o.size() && j.o[at].first != canon) ++at;
        if (at < j.o.size()) { complete(*f.s, v.a[i], j.o[at].second); continue; }
        if (!(f.flags & jm::SKIPS) || (f.flags & jm::SKIPD)) continue;
        J x; if (jm::ser(*f.s, v.a[i], false, x) == jm::S_OK) { complete(*f.s, v.a[i], x); j.add(canon, std::move(x)); sim::probe("read-only-field-present"); }
    }
}
bool ser_only(int type) { return !strcmp(kTypes[type].name, "flatx"); } // what its flattened extra fields absorb when reading is not specified
Op gen_op(int type, bool damage, bool collide)
{
    Op op; op.type = type; const Ops& t = kTypes[type]; const Schema& s = *t.s();
    op.obj = gen(s, 0); op.how = (int)choose(PROG, 8); op.k = (OpK)choose(PROG, 5); if (ser_only(type)) op.k = (OpK)(op.k & 1); if (!t.dump && op.k <= OP_SER) op.k = OP_PARSE_DESER; op.fresh = false; op.jok = false;
    if (op.k <= OP_SER) {
        if (collide) put_collisions(s, op.obj);
        return op;
    }
    op.fresh = choose(PROG, 2);
    V src = choose(PROG, 3) ? gen(s, 0) : op.obj; J j; if (jm::ser(s, src, choose(PROG, 2), j) != jm::S_OK) j = J::obj();
    if (choose(PROG, 4)) complete(s, src, j);
    if (choose(PROG, 3) == 2) other_names(s, j);
    if (damage && choose(FAULT, 2)) for (uint32_t n = choose(FAULT, 5); n--;) jdamage(j);
    op.text = jtext(j);
    if (damage && choose(FAULT, 5) == 4) for (uint32_t n = 1 + choose(FAULT, 2); n--;) damage_once(op.text, 1 + choose(FAULT, 7));
    if (damage && choose(FAULT, 8) == 7) { // what a lenient producer or a splice puts between the bytes
        static const char* T[] = {"/**/", "//x\n", "NaN", "Infinity", "-Inf", "'", ",", "00", "\xef\xbb\xbf", "{}", "null", "\\u", "\xff", "+1", "1e", " "};
        size_t at = choose(FAULT, 3) ? choose(FAULT, (uint32_t)op.text.size() + 1) : choose(FAULT, 2) ? op.text.size() : 0; uint32_t k = choose(FAULT, 17);
        if (k == 16) op.text.insert(at, std::string(1, 0)); else op.text.insert(at, T[k]); sim::fault_fired("bytes-inserted"); }
#ifdef KLB_YAML
    op.jok = jparse(op.text, op.doc, op.usable); if (!op.usable) { op.text = "{}"; op.jok = jparse(op.text, op.doc); }
#else
    op.jok = jparse(op.text, op.doc);
#endif
    return op;
}
void describe(const sim::Event& e, char* b, int n)
{
    if (e.kind >= 4) { static const char* k[] = {"change on", "delivery to", "restart of"}; snprintf(b, (size_t)n, "%s node %d (%s version) revision %d", k[e.kind - 4], e.a, e.c ? "old" : "new", e.b); return; }
    snprintf(b, (size_t)n, "%s %s form %d fault at allocation %d", e.a >= 0 && e.a < 5 ? kOpN[e.a] : "?", e.b >= 0 && e.b < kNTypes ? kTypes[e.b].name : "?", e.c, e.d);
}
void mixop(const Op& op) { sim::mix(std::hash<std::string>{}(op.text)); sim::mix(std::hash<std::string>{}(jm::vtext(op.obj))); }
// ------------------------------------------------------------------------------------------------ J02, J03
uint64_t leaks(const Op& op, const Fault& f) { uint64_t b = sim::arena_live_blocks(); attempt(op, f, false, "leak check"); return sim::arena_live_blocks() - b; }
void run_single(const char* prop)
{
    bool mem = !strcmp(prop, P_MEMORY); uint32_t n = 2 + choose(PROG, 7); int okc = 0;
#ifdef KLB_YAML
    g_short = mem;
#endif
    int type = 0;
    for (uint32_t i = 0; i < n; ++i) {
        if (!i || choose(PROG, 2)) type = (int)choose(PROG, (uint32_t)kNTypes);
        Op op = gen_op(type, !mem || choose(FAULT, 3) == 2, true); mixop(op);
        Fault f; bool warm = false;
        if (mem) {
            warm = choose(FAULT, 3) != 0; uint32_t most = 30;
            if (warm) { sim::arm_alloc(0, false); attempt(op, Fault{}, false, "no fault"); most = 60; }
            f.k = 1 + choose(FAULT, most); f.sticky = choose(FAULT, 4) == 3; if (choose(FAULT, 6) == 5) { f.user = 1 + choose(FAULT, 3); if (choose(FAULT, 2)) f.k = 0; }
        }
        sim::rec(1, op.k, op.type, op.how, (int)f.k);
        if (sim::verbose()) sim::note("%s %s object %s document %s", kOpN[op.k], kTypes[op.type].name, jm::vtext(op.obj).c_str(), op.text.c_str());
        uint64_t b = sim::arena_live_blocks(); attempt(op, f, mem && !choose(FAULT, 2), mem ? "memory may fail" : "undisturbed"); ++okc;
        if (sim::arena_live_blocks() > b) { // first use of a lazily built table, or a leak: a leak grows with every repetition
            bool grows = true; for (int k = 0; k < 3 && grows; ++k) grows = leaks(op, f) > 0;
            if (grows) sim::violation(mem ? P_MEMORY : P_DOCS, "leak", "%s %s leaves memory allocated every time (fault at allocation %u)", kOpN[op.k], kTypes[op.type].name, f.k);
        }
        if (mem) { attempt(op, Fault{}, false, "repeated with memory available"); }
    }
    if (okc >= 2) sim::nontrivial();
}
// ------------------------------------------------------------------------------------------------ J01
struct Shared { Op op; void* obj; DOC* doc; Expect e[8]; };
struct Job { int item; OpK k; int how; uint32_t fault; V start; };
struct Thread { std::vector<Job> jobs; };
std::vector<Shared>* g_items; std::vector<Thread>* g_threads;
#ifdef KLB_YAML
bool own_object(int type) { return !strcmp(kTypes[type].name, "seen"); } // views are handles of YAML nodes, which threads may not share
#else
bool own_object(int) { return false; }
#endif
void thread_main(void* arg)
{
    HarnessScope h0; Thread& t = *(Thread*)arg;
    for (auto& jb : t.jobs) {
        Shared& sh = (*g_items)[(size_t)jb.item]; Op op = sh.op; op.k = jb.k; op.how = jb.how; op.fresh = true;
        const Ops& ty = kTypes[op.type]; Expect e = expect(op, nullptr); sim::rec(2, jb.k, op.type, jb.how, (int)jb.fault);
        for (int round = 0; round < (jb.fault ? 2 : 1); ++round) {
            Result r; uint32_t fired = 0; uint32_t k = round ? 0 : jb.fault;
            SutScope s; void* obj = own_object(op.type) ? ty.make(&op.obj) : sh.obj;
            switch (jb.k) {
            case OP_DUMP: { std::string out; sim::arm_alloc(k, false); r.o = guarded([&] { ty.dump(obj, out, jb.how); }, r.msg); fired = sim::disarm_alloc(); HarnessScope h; if (r.o == RES_OK) { if (!jparse(out, r.j)) sim::violation(P_THREADS, "document", "dump of %s is not a " DOCKIND " document: %.300s", ty.name, out.c_str()); r.hasj = true; } break; }
            case OP_SER: { DOC d; sim::arm_alloc(k, false); r.o = guarded([&] { ty.ser(obj, d, jb.how); }, r.msg); fired = sim::disarm_alloc(); HarnessScope h; if (r.o == RES_OK) { r.j = jfrom(d); r.hasj = true; } break; }
            case OP_PARSE: { DOC d; sim::arm_alloc(k, false); r.o = guarded([&] { d = js::parse(mktext(sh.op.text.c_str(), sh.op.text.size())); }, r.msg); fired = sim::disarm_alloc(); HarnessScope h; if (r.o == RES_OK) { r.j = jfrom(d); r.hasj = true; } break; }
            default: {
#ifdef KLB_YAML
                RV doc = js::parse(sh.op.text.c_str()); // YAML nodes are not shared between threads
#else
                const RV& doc = *sh.doc;
#endif
                void* x = ty.make(nullptr); sim::arm_alloc(k, false); r.o = guarded([&] { if (jb.k == OP_PARSE_DESER) ty.deser(x, doc, jb.how); else ty.patch(x, doc, jb.how); }, r.msg); fired = sim::disarm_alloc();
                { HarnessScope h; if (r.o == RES_OK) { value_of(ty, x, r.v); r.hasv = true; } } ty.kill(x); break; } }
            if (obj != sh.obj) ty.kill(obj);
            HarnessScope h;
            if (r.o == RES_NOMEM && fired) { sim::probe("out-of-memory"); continue; }
            judge(op, e, r, fired, 0, "several threads at once");
        }
    }
}
void run_threads()
{
#ifdef KLB_YAML
    g_short = true;
#endif
    g_mt = true; sim::set_alloc_points(choose(SCHED, 2));
    uint32_t ni = 1 + choose(PROG, 3), nt = 2 + choose(PROG, 3); std::vector<Shared> items(ni); std::vector<Thread> th(nt); g_items = &items; g_threads = &th;
    int type = (int)choose(PROG, (uint32_t)kNTypes);
    for (auto& it : items) {
        if (choose(PROG, 3) == 2) type = (int)choose(PROG, (uint32_t)kNTypes);
        it.op = gen_op(type, false, true); 
        { Op o2 = gen_op(type, choose(FAULT, 3) == 2, false); if (o2.text.empty()) { J j; if (jm::ser(*kTypes[type].s(), o2.obj, true, j) == jm::S_OK) o2.text = jtext(j); else o2.text = "{}"; } it.op.text = o2.text; it.op.jok = jparse(it.op.text, it.op.doc); if (jm::has_dup(it.op.doc)) { it.op.text = "{}"; it.op.jok = jparse(it.op.text, it.op.doc); } }
        mixop(it.op);
        SutScope s; it.obj = kTypes[type].make(&it.op.obj); it.doc = new DOC;
#ifndef KLB_YAML
        it.doc->Parse(it.op.text.data(), it.op.text.size());
#endif
    }
    for (auto& t : th) for (uint32_t n = 1 + choose(PROG, 4); n--;) { Job j; j.item = (int)choose(PROG, ni); j.k = (OpK)choose(PROG, 5); if ((ser_only(items[(size_t)j.item].op.type) || !items[(size_t)j.item].op.jok) && j.k != OP_PARSE) j.k = (OpK)(j.k & 1); if (!kTypes[items[(size_t)j.item].op.type].dump && j.k <= OP_SER) j.k = OP_PARSE; j.how = (int)choose(PROG, 8); j.fault = choose(FAULT, 8) == 7 ? 1 + choose(FAULT, 12) : 0; t.jobs.push_back(j); }
    for (auto& t : th) { SutScope s; sim::spawn(thread_main, &t); }
    { SutScope s; sim::join_all(); }
    for (auto& it : items) { SutScope s; kTypes[it.op.type].kill(it.obj); delete it.doc; }
    sim::nontrivial();
}
#ifndef KLB_YAML
// ------------------------------------------------------------------------------------------------ J04: mixed versions, crashes, unreliable delivery
struct Content { int rev = 0; std::string name, note = "none"; int tint = 0; int tk = 0; std::vector<std::pair<int, std::string>> items; std::map<std::string, std::string> more; };
bool same(const rec_new& r, const Content& c)
{
    if (r.h.rev != c.rev || r.h.name != c.name || r.note != c.note || (int)r.tint != c.tint || r.tk.n != c.tk || r.items.size() != c.items.size() || r.rest.size() != c.more.size()) return false;
    for (size_t i = 0; i < c.items.size(); ++i) if (r.items[i].i != c.items[i].first || r.items[i].s != c.items[i].second || r.items[i].o.has_value() != (c.items[i].first % 2 != 0)) return false;
    for (auto& m : c.more) { auto it = r.rest.find(m.first); if (it == r.rest.end() || it->second != m.second) return false; }
    return true;
}
struct Node { bool old; bool up = true; rec_old* o = nullptr; rec_new* n = nullptr; std::string disk; size_t synced = 0; };
struct Msg { int to; std::string text; bool damaged; bool isnew = false; };
void run_relay()
{
    static const char* P = "J04"; uint32_t nn = 2 + choose(PROG, 3); std::vector<Node> nodes(nn); std::vector<Content> hist(1); std::vector<Msg> net; int maxrev = 0;
    auto word = [&] { uint32_t k = choose(PROG, 9); return k == 8 ? std::string("nul\0in", 6) : std::string(kStr[k]); };
    hist[0].name = word();
    auto rev_of = [&](Node& x) { return x.old ? (x.o ? x.o->rev : -1) : x.n ? x.n->h.rev : -1; };
    auto drop = [&](Node& x) { SutScope s; delete x.o; delete x.n; x.o = nullptr; x.n = nullptr; };
    auto text_of = [&](Node& x, std::string& out) { // dump of the node's current value, memory may fail
        std::string msg; Out r; SutScope s; { std::string t; uint32_t how; { HarnessScope h; how = choose(PROG, 3); }
        r = guarded([&] { if (how == 2) { DOC d = x.old ? js::serialize(*x.o) : js::serialize(*x.n); t = js::dump(js::view(d)); } else t = x.old ? js::dump(*x.o) : js::dump(*x.n); }, msg); HarnessScope h; out = t; }
        return r; };
    auto check_node = [&](Node& x, const char* when) { // what a new-version reader makes of the node's value
        int rv = rev_of(x); if (rv < 0 || rv > maxrev) sim::violation(P, "content", "%s: unknown revision %d", when, rv);
        bool ok = false; std::string msg, t; Out r = text_of(x, t); if (r == RES_OK) { SutScope s; rec_new y; r = guarded([&] { DOC d = js::parse(t); js::deserialize(y, d); }, msg); HarnessScope h; ok = r == RES_OK && same(y, hist[(size_t)rv]); }
        if (!ok) sim::violation(P, "content", "%s: revision %d was changed on its way (%s version node holds %.300s; %s %s)", when, rv, x.old ? "old" : "new", t.c_str(), kOut[r], msg.c_str()); };
    // takes a text as the new value if it is newer; returns false when it was refused
    auto accept = [&](Node& x, const std::string& text, bool intact, const char* when, bool faulty) {
        bool reuse = choose(PROG, 3) == 2; // reads into a copy of what it has; `items` keep their value when missing, so they are cleared
        if (faulty) { uint32_t k = 1 + choose(FAULT, 20); SutScope s; sim::arm_alloc(k, false); }
        std::string msg; Out r; rec_old* o = nullptr; rec_new* n = nullptr; uint32_t fired;
        { SutScope s; r = guarded([&] { DOC d = js::parse(text); if (x.old) { if (reuse && x.o) { o = new rec_old(*x.o); o->items.clear(); } else o = new rec_old; js::deserialize(*o, d); } else { if (reuse && x.n) { n = new rec_new(*x.n); n->items.clear(); } else n = new rec_new; js::deserialize(*n, d); } }, msg); fired = sim::disarm_alloc(); if (r != RES_OK) { delete o; delete n; o = nullptr; n = nullptr; } }
        if (r == RES_NOMEM && fired) { sim::probe("message-lost-no-memory"); return false; }
        if (r != RES_OK) { if (intact) sim::violation(P, "refused", "%s: an intact document is refused by the %s version: %s; %.300s", when, x.old ? "old" : "new", msg.c_str(), text.c_str()); sim::probe("damage-refused"); return false; }
        int rv = x.old ? o->rev : n->h.rev;
        if (!intact) { J j; if (!jparse(text, j)) sim::violation(P, "torn-accepted", "%s: a text that is no JSON document is accepted: %.300s", when, text.c_str()); SutScope s; delete o; delete n; return false; }
        if (rv <= rev_of(x)) { SutScope s; delete o; delete n; return true; }
        drop(x); x.o = o; x.n = n; return true; };
    auto store = [&](Node& x) { std::string t; if (text_of(x, t) != RES_OK) return; if (t.find('\n') != std::string::npos) sim::violation(P, "line", "a dumped document spans several lines: %.200s", t.c_str()); x.disk += t + "\n"; };
    for (auto& x : nodes) { x.old = choose(PROG, 2); }
    { Node& x = nodes[0]; SutScope s; if (x.old) { x.o = new rec_old; x.o->title = hist[0].name; } else { x.n = new rec_new; x.n->h.name = hist[0].name; x.n->note = "none"; } }
    store(nodes[0]); nodes[0].synced = nodes[0].disk.size();
    uint32_t steps = 6 + choose(PROG, 34); int hops = 0;
    for (uint32_t st = 0; st < steps; ++st) {
        Node& x = nodes[choose(PROG, nn)];
        switch (choose(PROG, 10)) {
        case 0: case 1: { // a client changes the record on a node that has the newest revision
            if (!x.up || rev_of(x) != maxrev) break;
            bool whole = choose(PROG, 4) == 3; // replaces the record instead of patching it: what the document leaves out goes back to its default
            Content c; if (!whole) c = hist.back(); c.rev = ++maxrev; J p = J::obj(); p.add("rev", J::integer(c.rev)); bool byname = choose(PROG, 2); if (whole) p.add("id", J::integer(0));
            if (choose(PROG, 2) || whole) { c.name = word(); p.add(x.old ? (byname ? "name" : "title") : (byname ? "name" : "caption"), J::str(c.name)); }
            if (choose(PROG, 2)) { c.note = word(); p.add("note", J::str(c.note)); }
            if (choose(PROG, 2)) { c.tint = (int)choose(PROG, 3); static const char* cn[] = {"red", "green", "blue"}; p.add("colour", J::str(cn[c.tint])); }
            if (choose(PROG, 3) == 2) { c.tk = (int)choose(PROG, 1000); p.add("tk", J::str("T-" + std::to_string(c.tk))); }
            if (whole || choose(PROG, 3) == 2) { c.items.clear(); J a = J::arr(); for (uint32_t n = choose(PROG, 3); n--;) { int v = (int)choose(PROG, 50); std::string w = word(); c.items.emplace_back(v, w); J q = J::obj(); q.add("i", J::integer(v)); q.add("s", J::str(w)); if (v % 2) q.add("o", J::integer(v)); a.a.push_back(q); } p.add("items", a); }
            if (choose(PROG, 3) == 2) { std::string k = kKeys[choose(PROG, 7)]; c.more[k] = word(); p.add(k, J::str(c.more[k])); }
            hist.push_back(c); std::string t = jtext(p), msg; Out r; { SutScope s; r = guarded([&] { DOC d = js::parse(t); if (whole) { if (x.old) js::deserialize(*x.o, d); else js::deserialize(*x.n, d); } else if (x.old) js::patch(*x.o, d); else js::patch(*x.n, d); }, msg); }
            if (whole) sim::probe("record-replaced");
            if (r != RES_OK) sim::violation(P, "refused", "%s %.200s is refused: %s", whole ? "put" : "patch", t.c_str(), msg.c_str());
            store(x); sim::rec(4, (int)(&x - &nodes[0]), maxrev, x.old); check_node(x, "after a change"); break; }
        case 2: case 3: case 4: { // replicate to another node
            if (!x.up || rev_of(x) < 0) break; Msg m; m.to = (int)choose(PROG, nn); m.damaged = false;
            if (text_of(x, m.text) != RES_OK) break;
            uint32_t f = choose(FAULT, 10);
            if (f == 9) { sim::fault_fired("message-lost"); break; }
            if (f == 8) { damage_once(m.text, 1 + choose(FAULT, 7)); m.damaged = true; }
            if (f == 7) { net.push_back(m); sim::fault_fired("message-duplicated"); }
            net.push_back(m); break; }
        case 5: case 8: case 9: if (!net.empty()) { uint32_t k = choose(FAULT, 2) ? choose(SCHED, (uint32_t)net.size()) : 0; if (k) sim::fault_fired("message-reordered"); Msg m = net[k]; net.erase(net.begin() + k); Node& y = nodes[(size_t)m.to]; if (!y.up) break;
                  int before = rev_of(y); accept(y, m.text, !m.damaged, "delivery", choose(FAULT, 6) == 5); if (rev_of(y) >= 0) check_node(y, "after delivery"); if (rev_of(y) != before) { store(y); ++hops; sim::probe("replicated"); } sim::rec(5, m.to, rev_of(y), y.old); } break;
        case 6: { // crash: what was not synced is torn at an arbitrary byte; the other version may come up
            if (!x.up) break; drop(x); x.up = false; size_t keep = x.synced + choose(FAULT, (uint32_t)(x.disk.size() - x.synced + 1)); if (keep < x.disk.size()) sim::fault_fired("torn-write"); x.disk.resize(keep); sim::fault_fired("crash"); break; }
        case 7: if (x.up) { x.synced = x.disk.size(); break; } else { // restart: the log is read line by line
            x.up = true; if (choose(PROG, 3) == 2) { x.old = !x.old; sim::probe("version-changed"); }
            size_t p = 0; while (p < x.disk.size()) { size_t e = x.disk.find('\n', p); bool whole = e != std::string::npos; std::string line = x.disk.substr(p, whole ? e - p : std::string::npos); 
                bool complete = whole; if (!whole) { sim::probe("torn-line"); int b = rev_of(x); bool took; { Node tmp; tmp.old = x.old; took = accept(tmp, line, false, "recovery", false); } (void)took; (void)b; x.disk.resize(p); break; }
                accept(x, line, complete, "recovery", false); p = e + 1; }
            x.synced = x.disk.size(); if (rev_of(x) >= 0) { check_node(x, "after recovery"); sim::probe("recovered"); } sim::rec(6, (int)(&x - &nodes[0]), rev_of(x), x.old); break; }
        }
    }
    for (auto& x : nodes) if (x.up && rev_of(x) >= 0) check_node(x, "at the end");
    if (hops >= 1) sim::nontrivial();
    for (auto& x : nodes) drop(x);
}
#else
void run_relay() {}
#endif
void run(const char* prop)
{
    HarnessScope h; g_prop = prop; types(); sim::set_fatal_props(kProps); sim::set_race_props(P_THREADS); sim::set_step_budget(40000000);
    for (int i = 0; i < kNTypes; ++i) kTypes[i].s();
    if (!strcmp(prop, P_THREADS)) run_threads(); else if (!strcmp(prop, "J04")) run_relay(); else run_single(prop);
}
}
#ifdef KLB_YAML
const sim::Harness sim::harness = {"yaml", run, describe};
#else
const sim::Harness sim::harness = {"json", run, describe};
#endif

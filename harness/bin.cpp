// Harness for kl::binary_reader / binary_writer: real library code over a simulated device
// (full, torn, crashed, corrupting). Oracle: an independent encoder/decoder of the wire format.
#include "../sim/simrt.h"
#include <kl/binary_rw.hpp>
#include <kl/binary_rw/endian.hpp>
#include <kl/binary_rw/map.hpp>
#include <kl/binary_rw/optional.hpp>
#include <kl/binary_rw/pair.hpp>
#include <kl/binary_rw/set.hpp>
#include <kl/binary_rw/string.hpp>
#include <kl/binary_rw/variant.hpp>
#include <kl/binary_rw/vector.hpp>
#include "damage.h"
#include <array>
#include <limits>
#include <cstdio>
#include <cstring>
#include <new>
using sim::choose; using sim::HarnessScope; using sim::SutScope; using sim::PROG; using sim::SCHED; using sim::FAULT;
namespace be = boost::endian;
namespace user {
enum class color : uint16_t { red = 1, green = 2, blue = 0x7fff };
template <int I> struct alt { uint8_t v; std::string s; };
template <int I> void write_binary(kl::binary_writer& w, const alt<I>& a) { w << a.v; if (I % 7 == 3) w << a.s; }
template <int I> void read_binary(kl::binary_reader& r, alt<I>& a) { r >> a.v; if (I % 7 == 3) r >> a.s; }
struct point { int32_t x; uint8_t tag; std::string name; std::vector<uint16_t> w; };
inline void write_binary(kl::binary_writer& w, const point& p) { w << p.x << p.tag; w << p.name; w << p.w; }
inline void read_binary(kl::binary_reader& r, point& p) { r >> p.x >> p.tag; r >> p.name; r >> p.w; if (!r.err() && p.tag == 200) r.notify_error(); }
}
namespace {
const char* PALL = "B01,B02,B03"; const char* g_prop;
using user::point;
using V3 = std::variant<be::little_int32_t, std::string, std::vector<uint8_t>>;
using Deep = std::map<std::string, std::vector<std::optional<std::pair<uint8_t, std::string>>>>;
using VV = std::variant<uint8_t, std::vector<V3>, std::map<int16_t, V3>, point>;
template <size_t... I> std::variant<user::alt<(int)I>...> many_alternatives(std::index_sequence<I...>);
using VM = decltype(many_alternatives(std::make_index_sequence<20>{}));
using Arr = std::array<uint32_t, 5>;

// ---------------------------------------------------------------- independent codec (no kl code)
struct Enc { std::string b; std::vector<uint32_t> cuts; void raw(const void* p, size_t n) { b.append((const char*)p, n); cuts.push_back((uint32_t)b.size()); } };
struct Dec { const unsigned char* p; size_t n, pos = 0; bool err = false; bool take(void* o, size_t k) { if (err || n - pos < k) { err = true; return false; } std::memcpy(o, p + pos, k); pos += k; return true; } };
template <typename T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, int> = 0> void enc(Enc& e, const T& v) { e.raw(&v, sizeof v); }
template <typename T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, int> = 0> void dec(Dec& d, T& v) { v = T{}; d.take(&v, sizeof v); }
template <be::order O, typename T, size_t N, be::align A> void enc(Enc& e, const be::endian_arithmetic<O, T, N, A>& v)
{ unsigned char b[8]; auto x = (uint64_t)(std::make_unsigned_t<T>)v.value(); for (size_t i = 0; i < N / 8; ++i) b[O == be::order::big ? N / 8 - 1 - i : i] = (unsigned char)(x >> (8 * i)); e.raw(b, N / 8); }
template <be::order O, typename T, size_t N, be::align A> void dec(Dec& d, be::endian_arithmetic<O, T, N, A>& v)
{ unsigned char b[8]; v = 0; if (!d.take(b, N / 8)) return; uint64_t x = 0; for (size_t i = 0; i < N / 8; ++i) x |= (uint64_t)b[O == be::order::big ? N / 8 - 1 - i : i] << (8 * i); if (std::is_signed_v<T> && N < 64 && (x >> (N - 1) & 1)) x |= ~0ull << N; v = (T)x; }
void enc(Enc& e, const std::string& s); void dec(Dec& d, std::string& s);
void enc(Enc& e, const point& p); void dec(Dec& d, point& p);
template <int I> void enc(Enc& e, const user::alt<I>& a) { enc(e, a.v); if (I % 7 == 3) enc(e, a.s); } template <int I> void dec(Dec& d, user::alt<I>& a) { dec(d, a.v); a.s.clear(); if (I % 7 == 3) dec(d, a.s); }
void enc(Enc& e, const Arr& a) { e.raw(a.data(), sizeof a); } void dec(Dec& d, Arr& a) { a = {}; d.take(a.data(), sizeof a); }
template <typename A, typename B> void enc(Enc& e, const std::pair<A, B>& p); template <typename A, typename B> void dec(Dec& d, std::pair<A, B>& p);
template <typename T> void enc(Enc& e, const std::optional<T>& o); template <typename T> void dec(Dec& d, std::optional<T>& o);
template <typename... T> void enc(Enc& e, const std::variant<T...>& o); template <typename... T> void dec(Dec& d, std::variant<T...>& o);
template <typename K, typename V> void enc(Enc& e, const std::map<K, V>& m); template <typename K, typename V> void dec(Dec& d, std::map<K, V>& m);
template <typename K> void enc(Enc& e, const std::set<K>& m); template <typename K> void dec(Dec& d, std::set<K>& m);
template <typename T> constexpr bool simple_v = std::is_arithmetic_v<T> || std::is_enum_v<T>;
template <typename T> void enc(Enc& e, const std::vector<T>& v) { enc(e, (uint32_t)v.size()); if constexpr (simple_v<T>) e.raw(v.data(), v.size() * sizeof(T)); else for (auto& x : v) enc(e, x); }
template <typename T> void dec(Dec& d, std::vector<T>& v)
{ uint32_t n = 0; v.clear(); dec(d, n); for (uint32_t i = 0; i < n && !d.err; ++i) { T x{}; dec(d, x); if (!d.err) v.push_back(std::move(x)); } if (d.err) v.clear(); }
void enc(Enc& e, const std::string& s) { enc(e, (uint32_t)s.size()); e.raw(s.data(), s.size()); }
void dec(Dec& d, std::string& s) { uint32_t n = 0; s.clear(); dec(d, n); if (d.err) return; if (d.n - d.pos < n) { d.err = true; return; } s.assign((const char*)d.p + d.pos, n); d.pos += n; }
template <typename A, typename B> void enc(Enc& e, const std::pair<A, B>& p) { enc(e, p.first); enc(e, p.second); }
template <typename A, typename B> void dec(Dec& d, std::pair<A, B>& p) { dec(d, p.first); dec(d, p.second); }
template <typename T> void enc(Enc& e, const std::optional<T>& o) { enc(e, (uint8_t)(o ? 1 : 0)); if (o) enc(e, *o); }
template <typename T> void dec(Dec& d, std::optional<T>& o) { uint8_t f = 0; o.reset(); dec(d, f); if (f && !d.err) { T x{}; dec(d, x); if (!d.err) o = std::move(x); } }
template <typename... T> void enc(Enc& e, const std::variant<T...>& v) { enc(e, (uint8_t)v.index()); std::visit([&](auto& x) { enc(e, x); }, v); }
template <size_t I, typename W> void decv(Dec& d, W& v, uint8_t k) { if constexpr (I == std::variant_size_v<W>) d.err = true; else if (k == I) { std::variant_alternative_t<I, W> x{}; dec(d, x); if (!d.err) v.template emplace<I>(std::move(x)); } else decv<I + 1>(d, v, k); }
template <typename... T> void dec(Dec& d, std::variant<T...>& v) { uint8_t k = 0; dec(d, k); if (!d.err) decv<0>(d, v, k); }
template <typename K, typename V> void enc(Enc& e, const std::map<K, V>& m) { enc(e, (uint32_t)m.size()); for (auto& x : m) { enc(e, x.first); enc(e, x.second); } }
template <typename K, typename V> void dec(Dec& d, std::map<K, V>& m) { uint32_t n = 0; m.clear(); dec(d, n); for (uint32_t i = 0; i < n && !d.err; ++i) { K k{}; V v{}; dec(d, k); dec(d, v); if (!d.err) m.emplace(std::move(k), std::move(v)); } if (d.err) m.clear(); }
template <typename K> void enc(Enc& e, const std::set<K>& m) { enc(e, (uint32_t)m.size()); for (auto& x : m) enc(e, x); }
template <typename K> void dec(Dec& d, std::set<K>& m) { uint32_t n = 0; m.clear(); dec(d, n); for (uint32_t i = 0; i < n && !d.err; ++i) { K k{}; dec(d, k); if (!d.err) m.insert(std::move(k)); } if (d.err) m.clear(); }
void enc(Enc& e, const point& p) { enc(e, p.x); enc(e, p.tag); enc(e, p.name); enc(e, p.w); }
void dec(Dec& d, point& p) { dec(d, p.x); dec(d, p.tag); dec(d, p.name); dec(d, p.w); if (!d.err && p.tag == 200) d.err = true; }

// ---------------------------------------------------------------- generators
int g_depth; bool g_big; uint64_t g_cheap; // big values are filled from one recorded seed
uint32_t pc(uint32_t n) { if (!g_cheap) return choose(PROG, n); g_cheap = g_cheap * 6364136223846793005ull + 1442695040888963407ull; return n ? (uint32_t)(g_cheap >> 33) % n : 0; }
uint32_t big_count() { static const uint32_t B[] = {255, 256, 257, 300, 1000, 65535, 65536, 66000}; return B[choose(PROG, 8)]; }
struct Cheap { bool on; Cheap(bool o) : on(o) { if (on) g_cheap = choose(PROG, 1000) * 2 + 1; } ~Cheap() { if (on) g_cheap = 0; } };
uint32_t count() { static const uint32_t C[] = {0, 1, 2, 3, 5, 8}; uint32_t k = pc(24); if (g_depth > 2) return k % 3; return k < 6 ? C[k] : k < 22 ? k % 6 : 20 + pc(60); }
struct Depth { Depth() { ++g_depth; } ~Depth() { --g_depth; } };
template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0> void gen(T& v)
{ uint32_t k = pc(8); if (std::is_same_v<T, bool>) { v = (T)(k & 1); return; } v = k < 3 ? (T)k : k == 3 ? std::numeric_limits<T>::max() : k == 4 ? std::numeric_limits<T>::min() : (T)((uint64_t)pc(0x40000000) * 0x9e3779b97f4a7c15ull >> (64 - 8 * sizeof(T))); }
void gen(float& v) { v = (float)(int)pc(2000) / 8 - 100; } void gen(double& v) { v = (double)(int)pc(2000000) / 1024 - 500; }
void gen(user::color& v) { static const user::color C[] = {user::color::red, user::color::green, user::color::blue}; v = C[pc(3)]; }
void gen(std::byte& v) { v = (std::byte)pc(256); }
template <be::order O, typename T, size_t N, be::align A> void gen(be::endian_arithmetic<O, T, N, A>& v) { T x; gen(x); if (N < sizeof(T) * 8) { if (std::is_signed_v<T>) x = (T)(x % ((T)1 << (N - 1))); else x = (T)(x & (((T)1 << N) - 1)); } v = x; }
bool go_big() { return g_big && !g_cheap && g_depth == 0; }
void gen(std::string& s) { bool big = go_big(); uint32_t n = big ? big_count() : count(); Cheap c(big); s.clear(); for (uint32_t i = 0; i < n; ++i) s += (char)pc(256); }
template <int I> void gen(user::alt<I>& a) { gen(a.v); if (I % 7 == 3) gen(a.s); }
void gen(point& p); void gen(Arr& a) { for (auto& x : a) gen(x); }
template <typename A, typename B> void gen(std::pair<A, B>& p); template <typename T> void gen(std::optional<T>& o); template <typename... T> void gen(std::variant<T...>& o);
template <typename K, typename V> void gen(std::map<K, V>& m); template <typename K> void gen(std::set<K>& m);
template <typename T> void gen(std::vector<T>& v) { bool big = go_big(); uint32_t n = big ? big_count() : count(); if (big && !simple_v<T>) n %= 1001; Cheap c(big); Depth d; v.clear(); for (uint32_t i = 0; i < n; ++i) { T x{}; gen(x); v.push_back(std::move(x)); } }
template <typename A, typename B> void gen(std::pair<A, B>& p) { gen(p.first); gen(p.second); }
template <typename T> void gen(std::optional<T>& o) { o.reset(); if (pc(3)) { T x{}; gen(x); o = std::move(x); } }
template <size_t I, typename W> void genv(W& v, uint32_t k) { if constexpr (I < std::variant_size_v<W>) { if (k == I) { Depth d; std::variant_alternative_t<I, W> x{}; gen(x); v.template emplace<I>(std::move(x)); } else genv<I + 1>(v, k); } }
template <typename... T> void gen(std::variant<T...>& v) { genv<0>(v, pc(sizeof...(T))); }
template <typename K, typename V> void gen(std::map<K, V>& m) { bool big = go_big(); uint32_t n = big ? big_count() % 1001 : count(); Cheap c(big); Depth d; m.clear(); for (uint32_t i = 0; i < n; ++i) { K k{}; V v{}; gen(k); gen(v); m.emplace(std::move(k), std::move(v)); } }
template <typename K> void gen(std::set<K>& m) { bool big = go_big(); uint32_t n = big ? big_count() % 1001 : count(); Cheap c(big); Depth d; m.clear(); for (uint32_t i = 0; i < n; ++i) { K k{}; gen(k); m.insert(std::move(k)); } }
void gen(point& p) { gen(p.x); gen(p.tag); if (p.tag == 200) p.tag = 7; gen(p.name); gen(p.w); }

template <typename T> struct must_be_empty : std::false_type {};
template <> struct must_be_empty<std::string> : std::true_type {};
template <typename T> struct must_be_empty<std::vector<T>> : std::true_type {};
template <typename T> struct must_be_empty<std::set<T>> : std::true_type {};
template <typename K, typename V> struct must_be_empty<std::map<K, V>> : std::true_type {};

// ---------------------------------------------------------------- SUT side
struct Buf { char* p; size_t n; }; // exact-size block: any access outside is reported by the simulator
Buf make_buf(const std::string& bytes) { Buf b{(char*)sim::raw_alloc(bytes.size()), bytes.size()}; if (b.n) std::memcpy(b.p, bytes.data(), b.n); return b; }
void free_buf(Buf& b) { sim::raw_free(b.p); b.p = nullptr; }

enum Via { MEMBER, RETURN, STREAM };
struct Rd { kl::binary_reader* r; Dec d; size_t size; };
void pos_check(Rd& x, const char* what)
{
    size_t pos, left; bool err, empty; { SutScope s; pos = x.r->pos(); left = x.r->left(); err = x.r->err(); empty = x.r->empty(); }
    if (pos > x.size || left != x.size - pos || empty != (pos == x.size)) sim::violation("B01", "position", "%s: position %llu, left %llu, buffer %llu", what, (unsigned long long)pos, (unsigned long long)left, (unsigned long long)x.size);
    if (err != x.d.err) sim::violation(err ? "B01,B02" : "B01", err ? "error-without-cause" : "error-missed", "%s: %s", what, err ? "the reader reports an error although the input holds the value" : "the reader reports no error although the input ends inside the value or is invalid");
    if (!err && pos != x.d.pos) sim::violation("B01,B02", "position", "%s consumed up to %llu instead of %llu", what, (unsigned long long)pos, (unsigned long long)x.d.pos);
}
bool g_intact; // the bytes being read are exactly what was written
template <typename T> void raw_read(kl::binary_reader& r, T& v, Via via, bool& ok)
{
    if constexpr (std::is_same_v<T, Arr>) { if (via == MEMBER) ok = r.read_raw(v); else if (via == RETURN) ok = r.read_span(gsl::span<uint32_t>{v.data(), v.size()}); else { r >> gsl::span<uint32_t>{v.data(), v.size()}; ok = !r.err(); } }
    else { if (via == MEMBER) ok = r.read(v); else if (via == RETURN) { v = r.read<T>(); ok = !r.err(); } else { r >> v; ok = !r.err(); } }
}
// reads one value of type T; returns false when memory ran out (reader must be discarded)
template <typename T> bool read_value(Rd& x, const char* name)
{
    Via via = (Via)choose(PROG, 3); bool prefilled = choose(PROG, 2); size_t at = x.d.pos; bool was_err = x.d.err;
    T model{}; dec(x.d, model);
    uint32_t k = choose(FAULT, 12) == 11 ? 1 + choose(FAULT, 12) : 0, fired; bool threw = false, other = false, ok = false;
    size_t pos0; { SutScope s; pos0 = x.r->pos(); }
    uint64_t live0 = sim::arena_live_bytes(); T* v;
    { SutScope s; v = new T{}; if (prefilled) { T tmp{}; { HarnessScope h; gen(tmp); } *v = tmp; } }
    sim::arena_reset_peak(); uint64_t base = sim::arena_live_bytes();
    { SutScope s; { HarnessScope h; sim::arm_alloc(k, false); }
      try { raw_read(*x.r, *v, via, ok); } catch (const std::bad_alloc&) { threw = true; } catch (...) { other = true; }
      HarnessScope h; fired = sim::disarm_alloc(); }
    sim::rec(10, (int)at, ok, threw, (int)sizeof(T) + (name[0] << 8) + (name[1] << 16)); sim::note("read %s at %zu -> %s", name, at, threw ? "out of memory" : ok ? "ok" : "error");
    uint64_t used = sim::arena_peak_bytes() - base;
    if (used > 256 * (uint64_t)x.size + 4096) sim::violation("B01", "memory-amplification", "reading %s from %llu bytes used %llu bytes of memory", name, (unsigned long long)x.size, (unsigned long long)used);
    if (other || (threw && !fired)) sim::violation("B01", "throws", "reading %s throws", name);
    if (threw) {
        sim::probe("out-of-memory"); size_t pos; { SutScope s; pos = x.r->pos(); delete v; }
        if (pos > x.size) sim::violation("B01", "position", "the position left the buffer");
        if (sim::arena_live_bytes() != live0) sim::violation("B01", "leak", "memory is lost when reading %s runs out of memory", name);
        return false;
    }
    bool err; size_t pos; { SutScope s; err = x.r->err(); pos = x.r->pos(); }
    if (ok == err) sim::violation("B01", "return-value", "read of %s returns %d while err() is %d", name, ok, err);
    if (was_err && pos != pos0) sim::violation("B01", "read-after-error", "reading %s after an error consumed input", name);
    pos_check(x, name);
    if (!err) {
        Enc a, b; enc(a, *v); enc(b, model);
        if (a.b != b.b) sim::violation(g_intact ? "B01,B02" : "B01", "value", "%s at %zu is read back different from what the bytes say", name, at);
    } else {
        sim::probe(was_err ? "read-after-error" : "error-detected");
        if constexpr (must_be_empty<T>::value) if (!(was_err && via == MEMBER) && !v->empty()) sim::violation("B01", "not-empty", "%s holds %zu elements after the read failed", name, v->size());
        if (was_err) { if (via == RETURN) { if constexpr (simple_v<T>) if (*v != T{}) sim::violation("B01", "value", "a failed read<T>() of %s returned a value", name); } }
    }
    { SutScope s; delete v; }
    if (sim::arena_live_bytes() != live0) sim::violation("B01,B02", "leak", "memory is lost when reading %s", name);
    return true;
}
// writing
struct Wr { kl::binary_writer* w; std::string img; size_t pos = 0; bool err = false; };
template <typename T> void raw_write(kl::binary_writer& w, const T& v, bool alt)
{
    if constexpr (std::is_same_v<T, Arr>) { if (alt) w.write_raw(v); else { gsl::span<const uint32_t> s{v.data(), v.size()}; w.write_span(s); } }
    else if constexpr (simple_v<T>) { if (alt) w.write_raw(v); else w << v; }
    else w << v;
}
// applies the expected effect: primitives are written while they fit, the first that does not sets the error
void model_write(Wr& x, const Enc& e, uint32_t from = 0)
{
    uint32_t last = from;
    for (uint32_t c : e.cuts) { if (c <= from) continue; size_t n = c - last; if (x.err || x.img.size() - x.pos < n) { x.err = true; return; } std::memcpy(&x.img[x.pos], e.b.data() + last, n); x.pos += n; last = c; }
}
template <typename T> bool write_value(Wr& x, const char* name, std::string& encoded)
{
    T v{}; gen(v); Enc e; enc(e, v); encoded = e.b; bool alt = choose(PROG, 3) == 2;
    std::vector<uint32_t> cuts; for (uint32_t c : e.cuts) if (cuts.empty() || c != cuts.back()) cuts.push_back(c); e.cuts = cuts;
    bool was = x.err; model_write(x, e);
    bool threw = false; { SutScope s; try { raw_write(*x.w, v, alt); } catch (...) { threw = true; } }
    if (threw) sim::violation("B03", "throws", "writing %s throws", name);
    size_t pos, left; bool err; { SutScope s; pos = x.w->pos(); err = x.w->err(); left = x.w->left(); }
    sim::rec(11, (int)pos, err, (int)e.b.size(), (name[0] << 8) + (name[1] << 16)); sim::note("write %s (%zu bytes) -> position %zu%s", name, e.b.size(), pos, err ? " error" : "");
    if (err != x.err) sim::violation(err ? "B02,B03" : "B03", err ? "error-without-cause" : "error-missed", "writing %s: err() is %d, expected %d", name, err, x.err);
    if (pos != x.pos || left != x.img.size() - x.pos) sim::violation(x.err ? "B03" : "B02,B03", "position", "after writing %s the position is %zu, expected %zu", name, pos, x.pos);
    if (err) sim::probe(was ? "write-after-error" : "buffer-full");
    return !err;
}
struct Ty { const char* name; bool (*read)(Rd&, const char*); bool (*write)(Wr&, const char*, std::string&); };
template <typename T> Ty ty(const char* n) { return Ty{n, &read_value<T>, &write_value<T>}; }
const Ty kTypes[] = {
    ty<uint8_t>("uint8"), ty<int16_t>("int16"), ty<uint32_t>("uint32"), ty<int64_t>("int64"), ty<char>("char"), ty<std::byte>("byte"), ty<float>("float"), ty<double>("double"), ty<user::color>("enum"),
    ty<be::big_uint16_t>("big_uint16"), ty<be::big_uint24_t>("big_uint24"), ty<be::big_int32_t>("big_int32"), ty<be::big_uint64_t>("big_uint64"), ty<be::little_int16_t>("little_int16"), ty<be::little_int24_t>("little_int24"), ty<be::little_uint48_t>("little_uint48"),
    ty<std::string>("string"), ty<std::vector<uint8_t>>("vector<uint8>"), ty<std::vector<uint32_t>>("vector<uint32>"), ty<std::vector<double>>("vector<double>"), ty<std::vector<user::color>>("vector<enum>"), ty<std::vector<be::big_uint16_t>>("vector<big_uint16>"),
    ty<std::vector<std::string>>("vector<string>"), ty<std::vector<std::vector<std::string>>>("vector<vector<string>>"), ty<std::vector<point>>("vector<user>"), ty<std::map<uint8_t, int32_t>>("map<uint8,int32>"), ty<std::map<std::string, std::vector<uint16_t>>>("map<string,vector<uint16>>"),
    ty<std::map<int32_t, std::map<std::string, std::string>>>("map<int32,map>"), ty<std::set<std::string>>("set<string>"), ty<std::set<int32_t>>("set<int32>"), ty<std::set<std::vector<uint8_t>>>("set<vector<uint8>>"), ty<std::optional<uint32_t>>("optional<uint32>"), ty<std::optional<std::string>>("optional<string>"),
    ty<std::optional<std::vector<std::string>>>("optional<vector<string>>"), ty<std::pair<uint8_t, std::string>>("pair<uint8,string>"), ty<std::pair<std::vector<int16_t>, std::optional<double>>>("pair<vector,optional>"), ty<V3>("variant"), ty<VV>("variant(nested)"), ty<Deep>("map<string,vector<optional<pair>>>"), ty<point>("user"), ty<Arr>("array"),
    ty<std::optional<point>>("optional<user>"), ty<std::vector<V3>>("vector<variant>"), ty<std::map<uint8_t, V3>>("map<uint8,variant>"), ty<VM>("variant(20 alternatives)"), ty<std::vector<VM>>("vector<variant(20)>"),
};
constexpr uint32_t kNT = sizeof kTypes / sizeof kTypes[0];

// ---------------------------------------------------------------- reading a stream of tagged records
struct Rec { uint32_t type; std::string bytes; };
kl::binary_reader* open_reader(const Buf& b) { SutScope s; if (b.n % 4 == 0 && ((uintptr_t)b.p & 3) == 0 && b.n % 8) return new kl::binary_reader(gsl::span<const uint32_t>{(const uint32_t*)b.p, b.n / 4}); return new kl::binary_reader(gsl::span<const std::byte>{(const std::byte*)b.p, b.n}); }
void start(Rd& x, const Buf& b) { x.r = open_reader(b); x.d = Dec{(const unsigned char*)b.p, b.n}; x.size = b.n; { size_t l, p; { SutScope s; l = x.r->left(); p = x.r->pos(); } if (l != b.n || p) sim::violation("B01,B02", "position", "a new reader of %zu bytes is at position %zu with %zu left", b.n, p, l); } pos_check(x, "a new reader"); }
void stop(Rd& x) { SutScope s; delete x.r; }
void resume(Rd& x, const Buf& b, size_t pos) // a fresh reader on the same bytes, moved to a record boundary
{ stop(x); start(x, b); { SutScope s; x.r->skip((std::ptrdiff_t)pos); } x.d.pos = pos; pos_check(x, "skip"); }

bool extra_op(Rd& x) // false: memory ran out, the reader is to be discarded
// operations other than reading a value
{
    uint32_t k = choose(PROG, 6);
    if (k == 0) { uint32_t v = 0xabcdabcd, m = 0; bool ok; bool want = !x.d.err && x.d.n - x.d.pos >= 4; if (want) std::memcpy(&m, x.d.p + x.d.pos, 4); { SutScope s; ok = x.r->peek(v); } if (ok != want || (ok && v != m)) sim::violation("B01,B02", "peek", "peek returns %d, expected %d, or a wrong value", ok, want); pos_check(x, "peek"); }
    else if (k == 1) { be::big_uint64_t v; uint64_t m = 0; bool want = !x.d.err && x.d.n - x.d.pos >= 8; if (want) for (int i = 0; i < 8; ++i) m = m << 8 | x.d.p[x.d.pos + i]; { SutScope s; v = x.r->peek<be::big_uint64_t>(); } if (v != m) sim::violation("B01,B02", "peek", "peek<T>() returns a wrong value"); pos_check(x, "peek"); }
    else if (k == 2) { // zero-copy span
        size_t n = choose(PROG, 3) ? choose(PROG, 12) : x.d.n - x.d.pos + choose(PROG, 3); bool mv = choose(PROG, 2); gsl::span<const std::byte> sp; bool threw = false;
        if (choose(PROG, 16) == 15) n = (size_t)-1 - choose(PROG, 16);
        { SutScope s; try { sp = x.r->span(n, mv); } catch (...) { threw = true; } }
        if (threw) sim::violation("B01", "throws", "span throws");
        bool ok = !x.d.err && x.d.n - x.d.pos >= n; if (!ok) x.d.err = true;
        if (ok && (sp.size() != n || (n && (const void*)sp.data() != x.d.p + x.d.pos))) sim::violation("B01,B02", "span", "span(%zu) does not denote the next bytes", n);
        if (!ok && sp.size()) sim::violation("B01", "span", "span(%zu) returns bytes although they do not exist", n);
        if (ok && mv) { x.d.pos += n; }
        pos_check(x, "span"); sim::probe("span");
    }
    else if (k == 3) { std::ptrdiff_t off = (std::ptrdiff_t)choose(PROG, 20) - 6; if (choose(PROG, 12) == 11) off = choose(PROG, 2) ? INT64_MAX : -INT64_MAX; { SutScope s; x.r->skip(off); }
        if (!x.d.err) { if (off > 0 && (size_t)off > x.d.n - x.d.pos) x.d.err = true; else if (off < 0 && (size_t)-off > x.d.pos) x.d.err = true; else x.d.pos += (size_t)off; } pos_check(x, "skip"); sim::probe("skip"); }
    else if (k == 4) { if (choose(PROG, 4) == 3) { SutScope s; x.r->notify_error(); x.d.err = true; } pos_check(x, "notify_error"); }
    else return kTypes[choose(PROG, kNT)].read(x, "value of an unexpected type");
    return true;
}
// returns the number of complete records read; stops at error or end
size_t read_records(const Buf& b, const std::vector<Rec>& expect, bool follow_expect, bool extras)
{
    Rd x; start(x, b); size_t i = 0;
    while (true) {
        if (x.d.pos == x.d.n && !x.d.err) break;
        size_t at = x.d.pos; uint8_t tag = 255, mt = 0; bool ok; dec(x.d, mt);
        { SutScope s; ok = x.r->read(tag); }
        pos_check(x, "tag"); if (!ok) break;
        if (tag != mt) sim::violation("B01,B02", "value", "a tag is read back different");
        if (tag >= kNT) { SutScope s; x.r->notify_error(); x.d.err = true; break; }
        if (follow_expect && i < expect.size() && tag != expect[i].type) sim::violation("B02", "sequence", "record %zu is read back with another tag", i);
        int tries = 0;
        for (;;) { bool done = kTypes[tag].read(x, kTypes[tag].name); if (done) break; resume(x, b, at + 1); if (++tries > 4) break; }
        if (tries > 4) { at = x.d.pos; break; }
        if (x.d.err) break;
        if (follow_expect && i < expect.size() && x.d.pos != at + 1 + expect[i].bytes.size()) sim::violation("B02", "sequence", "record %zu occupies %zu bytes, %zu were written", i, x.d.pos - at - 1, expect[i].bytes.size());
        ++i;
        if (extras && choose(PROG, 5) == 4) { follow_expect = false; if (!extra_op(x)) { stop(x); return i; } }
    }
    if (x.d.err && extras) { uint32_t n = choose(PROG, 6); size_t p0; { SutScope s; p0 = x.r->pos(); } for (uint32_t k = 0; k < n; ++k) { if (!extra_op(x)) break; size_t p; { SutScope s; p = x.r->pos(); } if (p != p0) sim::violation("B01", "read-after-error", "an operation after an error moved the position"); } }
    stop(x); return i;
}

// ---------------------------------------------------------------- scenarios
bool write_record(Wr& x, Rec& r)
{
    r.type = choose(PROG, kNT); uint8_t tag = (uint8_t)r.type; Enc e; enc(e, tag); model_write(x, e); { SutScope s; *x.w << tag; }
    bool ok = kTypes[r.type].write(x, kTypes[r.type].name, r.bytes); return ok;
}
void open_writer(Wr& x, const Buf& b, size_t pos) { { SutScope s; uint32_t how = (b.n + pos) % 8; // buffers come as bytes or as arrays of anything
    if (how == 4 && b.n % 4 == 0 && ((uintptr_t)b.p & 3) == 0) x.w = new kl::binary_writer(gsl::span<uint32_t>{(uint32_t*)b.p, b.n / 4});
    else if (how == 2 && b.n % 2 == 0 && ((uintptr_t)b.p & 1) == 0) x.w = new kl::binary_writer(gsl::span<uint16_t>{(uint16_t*)b.p, b.n / 2});
    else if (how == 1) x.w = new kl::binary_writer(gsl::span<char>{b.p, b.n});
    else x.w = new kl::binary_writer(gsl::span<std::byte>{(std::byte*)b.p, b.n}); if (pos) x.w->skip((std::ptrdiff_t)pos); } x.pos = pos; x.err = false; x.img.assign(b.p, b.n); }
void close_writer(Wr& x, const Buf& b) { { SutScope s; delete x.w; } if (x.img != std::string(b.p, b.n)) { size_t k = 0; while (x.img[k] == b.p[k]) ++k; sim::violation("B02,B03", "buffer-contents", "byte %zu of the output buffer is not what was written (position %zu of %zu)", k, x.pos, b.n); } }

// A log on a device that persists whole blocks in order, crashes and tears the last record; several crash-recover-append rounds.
void crash_scenario()
{
    std::string disk; std::vector<Rec> durable; size_t end = 0; // records known to be completely durable, and where they end
    uint32_t rounds = 1 + choose(PROG, 4);
    for (uint32_t rd = 0; rd < rounds; ++rd) {
        g_big = choose(PROG, 24) == 23 && rd == 0; size_t cap = end + 40 + choose(PROG, 600); if (g_big) { cap += 300000; sim::probe("big-values"); } std::string content = disk; content.resize(cap, '\xEE'); Buf b = make_buf(content);
        Wr w; open_writer(w, b, end); std::vector<Rec> log = durable; std::vector<size_t> ends; size_t good = end; uint32_t n = 1 + choose(PROG, 6);
        for (uint32_t i = 0; i < n; ++i) { Rec r; if (!write_record(w, r)) break; log.push_back(r); good = w.pos; ends.push_back(good); }
        close_writer(w, b);
        // crash: everything up to `keep` reached the device, in blocks or bytes
        size_t keep = good; uint32_t f = choose(FAULT, 4); std::string img(b.p, b.n);
        if (f) { size_t add = w.pos - end; keep = end + (add ? choose(FAULT, (uint32_t)add + 1) : 0); if (f == 2) keep = keep / 16 * 16 < end ? end : keep / 16 * 16; sim::fault_fired("crash-torn-write"); }
        free_buf(b);
        disk = img.substr(0, keep);
        // stale bytes of an older, longer log may follow
        std::string tail; if (f == 3) { uint32_t t = choose(FAULT, 24); for (uint32_t i = 0; i < t; ++i) tail += (char)choose(FAULT, 256); if (t) sim::fault_fired("stale-bytes-follow"); }
        size_t whole = durable.size(); while (whole - durable.size() < ends.size() && ends[whole - durable.size()] <= keep) ++whole;
        log.resize(whole); end = whole == durable.size() ? end : ends[whole - durable.size() - 1];
        durable = log;
        Buf rb = make_buf(disk + tail); g_intact = true;
        // recovery reads the durable records
        { Rd x; start(x, rb); size_t i = 0; for (; i < durable.size(); ++i) { uint8_t tag = 0, mt; dec(x.d, mt); { SutScope s; *x.r >> tag; } if (tag != durable[i].type) sim::violation("B02", "sequence", "record %zu is lost or has another tag after recovery", i); size_t at = x.d.pos; int tries = 0; while (!kTypes[tag].read(x, kTypes[tag].name) && ++tries < 6) resume(x, rb, at); if (tries >= 6) break; if (x.d.err || x.d.pos - at != durable[i].bytes.size()) sim::violation("B02", "sequence", "record %zu is not read back whole", i); } 
          if (i == durable.size() && x.d.pos != end) sim::violation("B02", "sequence", "recovery consumed %zu bytes, %zu were written", x.d.pos, end);
          stop(x); }
        g_intact = false; read_records(rb, durable, false, false); // and whatever follows never hurts
        free_buf(rb);
        disk.resize(end); sim::probe("recovered"); if (durable.size() > 1) sim::nontrivial();
    }
}
// A message damaged on its way, read with arbitrary operations.
void damage_scenario()
{
    g_big = choose(PROG, 48) == 47; size_t cap = 20 + choose(PROG, 700); if (g_big) { cap += 300000; sim::probe("big-values"); } Buf b = make_buf(std::string(cap, '\xEE')); Wr w; open_writer(w, b, 0); std::vector<Rec> log; size_t good = 0;
    uint32_t n = 1 + choose(PROG, 6); for (uint32_t i = 0; i < n; ++i) { Rec r; if (!write_record(w, r)) break; log.push_back(r); good = w.pos; }
    close_writer(w, b); std::string msg(b.p, good); free_buf(b);
    uint32_t k = choose(FAULT, 4);
    for (uint32_t i = 0; i < k; ++i) { uint32_t d = choose(FAULT, 10); if (d < 8) damage_once(msg, d); else if (msg.size() >= 4) { static const uint32_t L[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0x10000u, 0x1000000u, 0xfffffffcu, 200u, 4000u}; uint32_t v = L[choose(FAULT, 8)]; std::memcpy(&msg[choose(FAULT, (uint32_t)msg.size() - 3)], &v, 4); sim::fault_fired("length-corrupted"); } }
    g_intact = false; Buf rb = make_buf(msg); size_t got = read_records(rb, log, k == 0, true); if (k == 0 && got < log.size()) sim::probe("stopped-by-extra-operation");
    // many readers of the same bytes, from arbitrary offsets
    if (msg.size() > 1 && choose(PROG, 2)) { Rd x; start(x, rb); resume(x, rb, choose(PROG, (uint32_t)msg.size())); for (uint32_t i = 0; i < 4; ++i) if (!kTypes[choose(PROG, kNT)].read(x, "value at an arbitrary offset")) break; stop(x); }
    free_buf(rb); sim::nontrivial();
}
// A buffer that becomes full anywhere, with rewinds and patched fields.
void full_scenario()
{
    size_t cap = choose(PROG, 2) ? choose(PROG, 64) : choose(PROG, 500); Buf b = make_buf(std::string(cap, '\xEE')); Wr w; open_writer(w, b, 0);
    bool exact = choose(PROG, 3) == 2;
    if (exact) { // first measure, then give exactly the needed space or one byte less
        std::string e1; Buf big = make_buf(std::string(8000, '\xEE')); Wr m; open_writer(m, big, 0); std::string all; (void)e1;
        { SutScope s; delete w.w; } free_buf(b);
        uint32_t t = choose(PROG, kNT); kTypes[t].write(m, kTypes[t].name, all); close_writer(m, big); size_t need = m.err ? 0 : m.pos; std::string bytes(big.p, need); free_buf(big);
        if (m.err) return;
        // replaying the same bytes as a span needs exactly `need` bytes
        size_t cut = choose(FAULT, 2) && need ? 1 : 0; Buf ex = make_buf(std::string(need - cut, '\xEE')); Wr x; open_writer(x, ex, 0);
        Enc e; e.raw(bytes.data(), bytes.size()); if (!bytes.empty()) model_write(x, e);
        { SutScope s; gsl::span<const char> sp{bytes.data(), bytes.size()}; x.w->write_span(sp); }
        bool err; size_t pos; { SutScope s; err = x.w->err(); pos = x.w->pos(); } if (err != x.err || pos != x.pos) sim::violation("B03", "exact-fit", "writing %zu bytes into %zu: err %d position %zu", need, need - cut, err, pos);
        if (cut) sim::fault_fired("one-byte-short"); else sim::probe("exact-fit");
        close_writer(x, ex); free_buf(ex); sim::nontrivial(); return;
    }
    uint32_t n = 2 + choose(PROG, 10); sim::fault_fired("small-buffer");
    for (uint32_t i = 0; i < n; ++i) {
        if (choose(PROG, 6) == 5) { std::ptrdiff_t off = (std::ptrdiff_t)choose(PROG, 24) - 12; if (choose(PROG, 12) == 11) off = choose(PROG, 2) ? INT64_MAX : -INT64_MAX;
            { SutScope s; w.w->skip(off); } if (!w.err) { if (off > 0 && (size_t)off > cap - w.pos) w.err = true; else if (off < 0 && (size_t)-off > w.pos) w.err = true; else w.pos += (size_t)off; }
            size_t pos; bool err; { SutScope s; pos = w.w->pos(); err = w.w->err(); } if (pos != w.pos || err != w.err) sim::violation("B03", "position", "skip(%lld): position %zu err %d, expected %zu %d", (long long)off, pos, err, w.pos, w.err); sim::probe("writer-skip"); continue; }
        std::string e; uint32_t t = choose(PROG, kNT); kTypes[t].write(w, kTypes[t].name, e);
        if (choose(PROG, 16) == 15) { SutScope s; w.w->notify_error(); w.err = true; }
    }
    close_writer(w, b); free_buf(b); sim::nontrivial();
}
void run(const char* prop)
{
    HarnessScope hs; g_prop = prop; g_big = false; g_cheap = 0; g_depth = 0;
    sim::set_fatal_props(PALL); sim::set_race_props(""); sim::set_step_budget(12000000); sim::set_alloc_cap(64u << 20);
    uint32_t k = choose(PROG, 8); int main_kind = prop[2] - '1';
    int kind = k < 6 ? main_kind : (int)(k - 6); if (k >= 6 && kind >= main_kind) ++kind;
    if (kind == 0) damage_scenario(); else if (kind == 1) crash_scenario(); else full_scenario();
    sim::leak_check(PALL);
}
void describe(const sim::Event& e, char* b, int) { (void)e; b[0] = 0; }
} // namespace
const sim::Harness sim::harness = {"bin", run, describe};

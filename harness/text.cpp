// Harness for the text facilities that sit on a connection: base64 (T01), request paths (T02), and the facilities
// that promise to be callable from any thread (T03). The connection and memory misbehave; the oracles are small
// independent decoders.
#include "../sim/simrt.h"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "damage.h"
#include <kl/base64.hpp>
#include <kl/ctti.hpp>
#include <kl/enum_range.hpp>
#include <kl/enum_reflector.hpp>
#include <kl/enum_set.hpp>
#include <kl/hash.hpp>
#include <kl/path.hpp>
#include <kl/reflect_enum.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/split.hpp>
#include <kl/stream_join.hpp>
#include <kl/zip.hpp>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
using sim::choose; using sim::HarnessScope; using sim::SutScope; using sim::PROG; using sim::SCHED; using sim::FAULT;
namespace tt {
enum class hue { red, green, blue }; KL_REFLECT_ENUM(hue, red, green, (blue, azure))
enum class gap : signed char { low = -7, mid = 3, high = 100 }; KL_REFLECT_ENUM(gap, low, mid, (high, top))
enum class run_e { first = 2, second, third, min_ = 2, max_ = 5 };
struct rec { int a = 1; std::string b = "bee"; double c = 2.5; }; KL_REFLECT_STRUCT(rec, a, b, c)
enum class knot { x, z = 2, y = 1 }; KL_REFLECT_ENUM(knot, x, z, y) // starts at 0, ends at the last value, but not in order
enum class dup { one = 5, uno = 5, two = 9 }; KL_REFLECT_ENUM(dup, one, uno, two)
enum flat : unsigned { fa, fb, fc, fd }; KL_REFLECT_ENUM_SEQ(flat, (fa)((fb, Fb))(fc)(fd))
struct note { const char* text; }; struct lim { int n; };
struct tag3 { int id = 4; std::string txt = "t"; int arr[2] = {1, 2}; };
KL_REFLECT_STRUCT(tag3, (id, ::tt::note{"first"}, ::tt::lim{7}), (txt, ::tt::lim{9}), arr)
}
template <> struct kl::enum_traits<tt::run_e> : kl::enum_trait_support_range<tt::run_e, tt::run_e::min_, tt::run_e::max_> {};
namespace {
const char* g_prop; const char* kAll = "T01,T02,T03"; bool g_mt, g_long;
// bytes in a block of exactly their size: reading past either end is an error the simulator sees
struct Exact { char* p; size_t n; explicit Exact(const std::string& s) : p((char*)sim::raw_alloc(s.size())), n(s.size()) { if (n) std::memcpy(p, s.data(), n); } ~Exact() { sim::raw_free(p); } Exact(const Exact&) = delete; std::string_view sv() const { return {p, n}; } gsl::span<const std::byte> bytes() const { return {(const std::byte*)p, n}; } };
enum Out { O_OK, O_NOMEM, O_REFUSED, O_OTHER };
template <typename F> Out guarded(F f, uint32_t k, bool sticky, uint32_t& fired)
{
    SutScope s; Out o = O_OK; if (k) sim::arm_alloc(k, sticky);
    try { f(); } catch (const std::bad_alloc&) { o = O_NOMEM; } catch (const kl::path_parse_error&) { o = O_REFUSED; } catch (...) { o = O_OTHER; }
    fired = k ? sim::disarm_alloc() : 0; if (fired) sim::fault_fired("memory-failure");
    return o;
}
std::string show(const std::string& s) { std::string r; for (unsigned char c : s.substr(0, 120)) { char b[8]; if (c > 32 && c < 127 && c != '\\') r += (char)c; else { snprintf(b, sizeof b, "\\%02x", c); r += b; } } if (s.size() > 120) r += "..."; return r; }
uint32_t chp(uint32_t n) { return choose(PROG, n); }

// ------------------------------------------------------------------------------------------------ base64 oracle
const char kStd[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const char kUrl[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
std::string m_encode(const std::string& b, bool url)
{
    const char* A = url ? kUrl : kStd; std::string r; uint32_t acc = 0; int bits = 0;
    for (unsigned char c : b) { acc = (acc << 8) | c; bits += 8; while (bits >= 6) { bits -= 6; r += A[(acc >> bits) & 63]; acc &= (1u << bits) - 1; } }
    if (bits) r += A[(acc << (6 - bits)) & 63];
    if (!url) while (r.size() % 4) r += '=';
    return r;
}
enum Dec { D_OK, D_REJECT, D_EITHER }; // EITHER: may be rejected, but if it is accepted these are the bytes
Dec m_decode(const std::string& t, bool url, std::string& out)
{
    const char* A = url ? kUrl : kStd; size_t n = t.size(), eq = 0; while (eq < n && t[n - 1 - eq] == '=') ++eq;
    if (eq > 2 || (!url && n % 4)) return D_REJECT;
    size_t m = n - eq; if (m % 4 == 1) return D_REJECT;
    uint32_t acc = 0; int bits = 0; out.clear();
    for (size_t i = 0; i < m; ++i) { const char* p = t[i] ? std::strchr(A, t[i]) : nullptr; if (!p) return D_REJECT; acc = (acc << 6) | (uint32_t)(p - A); bits += 6; if (bits >= 8) { bits -= 8; out += (char)(acc >> bits); acc &= (1u << bits) - 1; } }
    bool spare = acc != 0;                                  // bits no encoder sets
    bool oddpad = eq && (m + eq) % 4 != 0;                  // padding of the wrong length (URL form only)
    if (eq && m % 4 == 0) oddpad = true;
    return spare || oddpad ? D_EITHER : D_OK;
}
std::string gen_bytes()
{
    static const uint32_t L[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 23, 24, 25, 31, 33, 47, 48, 49, 63, 64, 65, 100, 191, 192, 193, 255, 256, 257, 1000};
    uint32_t n = L[chp(sizeof L / sizeof *L - (chp(8) ? 8 : 0))]; if (!g_mt && !g_long && chp(600) == 599) { static const uint32_t H[] = {2047, 3072, 4096, 6143, 12288, 24575, 49151, 49153, 65535, 65537, 131073, 196609, 262145}; g_long = true; n = H[chp(13)]; sim::probe("very-long"); } uint32_t style = chp(4); std::string b; uint32_t x = chp(256);
    for (uint32_t i = 0; i < n; ++i) b += (char)(style == 0 ? x : style == 1 ? x + i : style == 2 ? (i & 1 ? 0xff : 0xfb) : (int)((x = x * 1103515245u + 12345u) >> 16));
    if (n && chp(3) == 2) b[chp(n)] = (char)chp(256);
    return b;
}
void check_encode(const std::string& b, bool url, uint32_t k, bool sticky, const char* P, std::string* text = nullptr)
{
    Exact in(b); std::string* r = nullptr; uint32_t fired; uint64_t live = sim::arena_mark();
    Out o = guarded([&] { r = new std::string(url ? kl::base64url_encode(in.bytes()) : kl::base64_encode(in.bytes())); }, k, sticky, fired);
    if (o == O_NOMEM && fired) { sim::probe("out-of-memory"); if (!g_mt && sim::arena_lost_since(live)) sim::violation(P, "leak", "encoding leaves memory behind after running out of it"); return; }
    if (o != O_OK) sim::violation(P, "wrong-exception", "encoding %zu bytes throws", b.size());
    std::string want = m_encode(b, url), got(r->data(), r->size()); { SutScope s; delete r; }
    if (want != got) sim::violation(P, "encoding", "%zu bytes are encoded as %s, expected %s", b.size(), show(got).c_str(), show(want).c_str());
    if (text) *text = got;
}
// what the receiver makes of a text
bool check_decode(const std::string& t, bool url, uint32_t k, bool sticky, const char* P, std::string* bytes)
{
    Exact in(t); std::optional<std::vector<std::byte>>* r = nullptr; uint32_t fired; uint64_t live = sim::arena_mark();
    Out o = guarded([&] { r = new std::optional<std::vector<std::byte>>(url ? kl::base64url_decode(in.sv()) : kl::base64_decode(in.sv())); }, k, sticky, fired);
    if (o == O_NOMEM && fired) { sim::probe("out-of-memory"); if (!g_mt && sim::arena_lost_since(live)) sim::violation(P, "leak", "decoding leaves memory behind after running out of it"); return false; }
    if (o != O_OK) sim::violation(P, "wrong-exception", "decoding %s throws", show(t).c_str());
    std::string want; Dec d = m_decode(t, url, want); bool ok = r->has_value(); std::string got; if (ok) got.assign((const char*)(*r)->data(), (*r)->size());
    { SutScope s; delete r; }
    if (ok && d == D_REJECT) sim::violation(P, "damage-accepted", "%s is decoded (to %zu bytes) although it is not a %s encoding", show(t).c_str(), got.size(), url ? "base64url" : "base64");
    if (!ok && d == D_OK) sim::violation(P, "refused", "%s is refused although it is a %s encoding", show(t).c_str(), url ? "base64url" : "base64");
    if (ok && got != want) sim::violation(P, "bytes", "%s is decoded to %s, it states %s", show(t).c_str(), show(got).c_str(), show(want).c_str());
    if (!ok) sim::probe("rejected");
    if (d == D_EITHER) sim::probe("non-canonical");
    if (bytes) *bytes = got; return ok;
}
void b64_damage(std::string& t, uint32_t kind)
{
    if (kind < 8) { damage_once(t, kind); return; }
    static const char C[] = "=+/-_ \n\0.,!@AZaz09\x80\xff\x7f"; uint32_t n = (uint32_t)t.size();
    if (kind == 8) { t.insert(choose(FAULT, n + 1), 1, C[choose(FAULT, sizeof C - 1)]); sim::fault_fired("byte-inserted"); }
    else if (kind == 9) { for (uint32_t k = 1 + choose(FAULT, 3); k--;) t += '='; sim::fault_fired("padding-added"); }
    else if (kind == 10 && n) { t[choose(FAULT, n)] = C[choose(FAULT, sizeof C - 1)]; sim::fault_fired("byte-overwritten"); }
    else if (kind == 11 && n) { t[n - 1 - choose(FAULT, n < 6 ? n : 6)] = C[choose(FAULT, sizeof C - 1)]; sim::fault_fired("byte-overwritten"); }
    else if (kind == 12) { t.insert(0, t.substr(0, n / 2)); sim::fault_fired("bytes-duplicated"); }
}
// A sender transmits numbered fragments of a payload, each encoded on its own; the channel loses, duplicates, reorders and
// damages them; the receiver assembles what decodes and asks again for what is missing.
void run_b64()
{
    static const char* P = "T01"; bool url = chp(2); std::string payload; uint32_t nf = 1 + chp(6); std::vector<std::string> frag;
    for (uint32_t i = 0; i < nf; ++i) frag.push_back(gen_bytes());
    std::map<uint32_t, std::string> got; struct M { uint32_t id; std::string t; bool hurt; }; std::vector<M> net; int delivered = 0; uint32_t rounds = 0;
    while (got.size() < nf && rounds++ < 40) {
        for (uint32_t i = 0; i < nf; ++i) {
            if (got.count(i)) continue;
            std::string t; bool mem = choose(FAULT, 8) == 7; uint32_t k = mem ? 1 + choose(FAULT, 2) : 0; t.clear(); check_encode(frag[i], url, k, false, P, &t); if (k && t.empty()) continue;
            uint32_t f = rounds > 20 ? 0 : choose(FAULT, 24); M m{i, t, false};
            if (f == 1) { sim::fault_fired("message-lost"); continue; }
            if (f == 2) { net.push_back(m); sim::fault_fired("message-duplicated"); }
            if (f >= 12) for (uint32_t n = 1 + choose(FAULT, 2); n--;) { b64_damage(m.t, 1 + choose(FAULT, 12)); m.hurt = true; }
            net.push_back(m);
        }
        while (!net.empty()) {
            uint32_t i = choose(SCHED, (uint32_t)net.size()); if (i) sim::fault_fired("message-reordered"); M m = net[i]; net.erase(net.begin() + i);
            bool mem = choose(FAULT, 8) == 7; uint32_t k = mem ? 1 + choose(FAULT, 2) : 0; std::string b; bool other = choose(FAULT, 16) == 15; // a receiver configured for the other alphabet
            bool ok = check_decode(m.t, other ? !url : url, k, choose(FAULT, 2), P, &b); ++delivered; sim::rec(1, (int)m.id, (int)m.t.size(), ok, m.hurt);
            sim::mix(m.t.size() * 4 + ok * 2 + m.hurt);
            if (m.hurt || other) { if (!ok) sim::probe("damage-detected"); continue; } // the (outer) checksum tells the receiver; the text itself was judged above
            if (!ok) { if (!mem) sim::violation(P, "refused", "an intact encoding is refused: %s", show(m.t).c_str()); continue; }
            if (got.count(m.id) && got[m.id] != b) sim::violation(P, "bytes", "two copies of a fragment decode differently"); got[m.id] = b;
        }
    }
    for (uint32_t i = 0; i < nf; ++i) if (!got.count(i) || got[i] != frag[i]) sim::violation(P, "assembled", "fragment %u does not arrive although faults stopped", i);
    sim::probe("assembled"); if (delivered >= 2) sim::nontrivial();
    sim::leak_check(P);
}
// ------------------------------------------------------------------------------------------------ path oracle
using Segs = std::vector<std::string>;
bool m_path(const std::string& t, Segs& out)
{
    out.clear(); size_t p = 0;
    while (p <= t.size()) {
        size_t e = t.find('/', p); if (e == std::string::npos) e = t.size(); std::string s = t.substr(p, e - p), d; p = e + 1;
        if (s.empty() || s == ".") continue;
        if (s == "..") { if (!out.empty()) out.pop_back(); continue; }
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] != '%') { d += s[i]; continue; }
            auto hex = [&](size_t j) { if (j >= s.size()) return -1; char c = s[j]; return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
            int h = hex(i + 1), l = hex(i + 2); if (h < 0 || l < 0 || h * 16 + l == '/') return false; d += (char)(h * 16 + l); i += 2;
        }
        out.push_back(d);
    }
    return true;
}
std::string gen_path()
{
    static const char* S[] = {"", "a", "b", "items", ".", "..", "...", "a b", "a%20b", "%41", "%2e", "%2E%2e", "..a", ".a", "a..", "%", "%4", "%zz", "%2f", "%2F", "%00", "100%25", "\xc3\xa9", "%c3%a9", "+", "a+b", "averyveryverylongsegmentnamethatneedstheheap", "%61%62%63", "%2", "a%", "~", "0", "%4G", "%G4", "a%2fb", "%25%32%66"};
    uint32_t n = chp(4) == 3 ? 12 + chp(40) : chp(7); bool bad = choose(FAULT, 4) == 3, deep = chp(3) == 2; std::string t; if (chp(3)) t += "/";
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t k = chp(sizeof S / sizeof *S); std::string s = S[k]; Segs dummy; if (!bad && !m_path(s, dummy)) s = "a"; if (deep && (s == ".." || s.empty())) s = "d";
        if (i) t += "/"; t += s; if (chp(8) == 7) t += "/";
    }
    if (!g_mt && !g_long && chp(200) == 199) { static const uint32_t H[] = {260, 600, 4100, 33000, 66000}; g_long = true; uint32_t len = H[chp(5)], seg = len < 1000 ? 1 : 1 + len / 130 + chp(3) * 256; for (uint32_t i = 0; t.size() < len; ++i) { t += '/'; t.append(seg, (char)('a' + i % 26)); if (i % 97 == 96) t += "/.."; } sim::probe("very-long"); }
    if (chp(6) == 5) t += "/";
    return t;
}
struct P2 { kl::path* p; Segs want; bool known; };
void check_view(const kl::path& p, const Segs& w, const char* when)
{
    static const char* P = "T02"; std::string why; bool bad = false;
    std::vector<std::string> got; std::string whole; bool drops = true, emp; size_t n;
    { SutScope s; n = p.size(); emp = p.empty(); kl::path_view v = p.view(); if (v.size() != n || v.empty() != emp) bad = true;
      for (size_t i = 0; i < n && i < w.size() && !bad; ++i) {
          std::string_view x = p[i], y = v[i]; HarnessScope h; std::string a(x), b(y), join, pre; got.push_back(a); if (a != b) bad = true;
          if (n > 60 && i > 2 && i < n - 2 && i != n / 2) continue; // enough of a long path
          for (size_t k = i; k < w.size(); ++k) { if (k > i) join += '/'; join += w[k]; } for (size_t k = 0; k <= i; ++k) { if (k) pre += '/'; pre += w[k]; }
          std::string_view j, r; { SutScope s2; j = p.joined(i); r = v.prefix(i + 1); } if (std::string(j) != join || std::string(r) != pre) { bad = true; why = "joined or prefix"; } }
      if (!bad) { std::string_view j, r; j = p.joined(n); r = v.prefix(0); if (!j.empty() || !r.empty()) bad = true; }
      size_t i = 0; for (kl::path_view q = v; !q.empty() && i < w.size(); q = q.drop_front(), ++i) { std::string_view f = q.front(); HarnessScope h; if (std::string(f) != w[i]) drops = false; }
      kl::path_view q = v; for (i = n; i-- > 0 && i < w.size() && !q.empty(); ) { std::string_view f = q[i]; { HarnessScope h; if (std::string(f) != w[i]) drops = false; } q = q.drop_back(); if (q.size() != i) drops = false; } }
    if (n != w.size() || bad || !drops || emp != w.empty() || got != w) {
        std::string a, b; for (auto& x : got) a += "[" + x + "]"; for (auto& x : w) b += "[" + x + "]";
        sim::violation(P, "segments", "%s: the path has %zu segment(s) %s, expected %zu %s %s", when, n, show(a).c_str(), w.size(), show(b).c_str(), why.c_str());
    }
}
// set with possible memory failure; the object must be usable afterwards whatever happened
void do_set(P2& x, const std::string& t, uint32_t k, bool sticky, const char* P, const char* when)
{
    Exact in(t); uint32_t fired; Segs w; bool good = m_path(t, w);
    Out o = guarded([&] { x.p->set(in.sv()); }, k, sticky, fired); sim::rec(2, (int)t.size(), o, good);
    if (o == O_NOMEM && fired) { sim::probe("out-of-memory"); x.known = false; return; }
    if (o == O_OTHER || o == O_NOMEM) sim::violation(P, "wrong-exception", "%s: %s is answered with an unexpected exception", when, show(t).c_str());
    if (o == O_REFUSED) { sim::probe("malformed-refused"); if (good) sim::violation(P, "refused", "%s: well-formed path %s is refused", when, show(t).c_str()); x.known = false; return; }
    if (!good) sim::violation(P, "damage-accepted", "%s: malformed path %s is accepted", when, show(t).c_str());
    x.want = w; x.known = true; if (!std::strcmp(P, "T02")) check_view(*x.p, x.want, when); sim::mix(w.size() * 3 + good);
    if (w.size() > 15) sim::probe("deep-path");
}
void run_path()
{
    static const char* P = "T02"; std::vector<P2> ps; uint32_t n = 3 + chp(20), sets = 0; std::string last;
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t op = chp(12);
        if (ps.empty() || op == 0) { if (ps.size() > 4) continue; P2 x; { SutScope s; x.p = new kl::path; } x.known = true; check_view(*x.p, {}, "a new path"); ps.push_back(x); if (op == 0) continue; }
        P2& x = ps[chp((uint32_t)ps.size())];
        if (op < 7) {
            std::string t = last.empty() || chp(4) ? gen_path() : last; last = t; // a retried request repeats its text
            for (uint32_t d = choose(FAULT, 6) >= 4 ? 1 + choose(FAULT, 2) : 0; d--;) { if (choose(FAULT, 2)) { damage_once(t, 1 + choose(FAULT, 7)); } else { static const char C[] = "/.%2fF0\0 "; t.insert(choose(FAULT, (uint32_t)t.size() + 1), 1, C[choose(FAULT, 9)]); sim::fault_fired("byte-inserted"); } sim::probe("damaged"); }
            uint32_t k = choose(FAULT, 5) == 4 ? 1 + choose(FAULT, 3) : 0; ++sets; bool was = x.known;
            do_set(x, t, k, choose(FAULT, 2), P, was ? "set" : "set after a failure");
        } else if (op == 7) { std::string t = gen_path(); Exact in(t); P2 y{nullptr, {}, true}; Segs w; bool good = m_path(t, w); uint32_t fired; uint32_t k = choose(FAULT, 4) == 3 ? 1 + choose(FAULT, 3) : 0; uint64_t live = sim::arena_mark();
            Out o = guarded([&] { y.p = new kl::path(in.sv()); }, k, true, fired);
            if (o == O_OK) { if (!good) sim::violation(P, "damage-accepted", "malformed path %s is accepted", show(t).c_str()); check_view(*y.p, w, "a constructed path"); y.want = w; if (ps.size() < 6) ps.push_back(y); else { SutScope s; delete y.p; } }
            else { if (sim::arena_lost_since(live)) sim::violation(P, "leak", "a failed construction leaves memory behind"); if (o == O_REFUSED ? good : !(o == O_NOMEM && fired)) sim::violation(P, o == O_REFUSED ? "refused" : "wrong-exception", "constructing a path from %s fails", show(t).c_str()); }
        } else if (op == 8 && x.known) { P2 y{nullptr, x.want, true}; uint32_t fired, k = choose(FAULT, 4) == 3 ? 1 + choose(FAULT, 2) : 0; Out o = guarded([&] { y.p = new kl::path(*x.p); }, k, false, fired);
            if (o == O_OK) { check_view(*y.p, y.want, "a copy"); if (ps.size() < 6) ps.push_back(y); else { SutScope s; delete y.p; } } else if (!(o == O_NOMEM && fired)) sim::violation(P, "wrong-exception", "copying a path throws");
        } else if (op == 9) { P2 y{nullptr, x.want, x.known}; { SutScope s; y.p = new kl::path(std::move(*x.p)); } if (y.known) check_view(*y.p, y.want, "a moved path"); x.known = false; if (ps.size() < 6) ps.push_back(y); else { SutScope s; delete y.p; } sim::probe("moved");
        } else if (op == 10) { P2& y = ps[chp((uint32_t)ps.size())]; if (&y != &x && x.known) { uint32_t fired; Out o = guarded([&] { *y.p = *x.p; }, choose(FAULT, 4) == 3 ? 1 + choose(FAULT, 2) : 0, false, fired); if (o == O_OK) { y.want = x.want; y.known = true; check_view(*y.p, y.want, "an assigned path"); } else y.known = false; }
        } else if (op == 11) { { SutScope s; x.p->clear(); } x.want.clear(); x.known = true; check_view(*x.p, {}, "a cleared path"); }
        for (auto& y : ps) if (y.known) check_view(*y.p, y.want, "another path, later");
    }
    for (auto& x : ps) { if (x.known) check_view(*x.p, x.want, "at the end"); SutScope s; delete x.p; }
    if (sets >= 2) sim::nontrivial(); sim::leak_check(P);
}
// ------------------------------------------------------------------------------------------------ T03
std::string g_shared_text, g_shared_bytes; const kl::path* g_path; Segs g_path_want; std::vector<std::string>* g_words; tt::rec* g_rec;
uint32_t m_fnv(const std::string& s) { uint32_t h = 2166136261u; for (char c : s) h = (h ^ (uint32_t)c) * 16777619u; return h; }
uint32_t m_hsieh(const std::string& s)
{
    auto g = [&](size_t i) { return (uint32_t)(uint16_t)((int)s[i] | ((int)s[i + 1] << 8)); }; uint32_t h = (uint32_t)s.size(); size_t i = 0; if (s.empty()) return 0;
    for (; i + 4 <= s.size(); i += 4) { h += g(i); uint32_t t = (g(i + 2) << 11) ^ h; h = (h << 16) ^ t; h += h >> 11; }
    switch (s.size() - i) { case 3: h += g(i); h ^= h << 16; h ^= (uint32_t)((int)(signed char)s[i + 2] * (1 << 18)); h += h >> 11; break; case 2: h += g(i); h ^= h << 11; h += h >> 17; break; case 1: h += (uint32_t)(int)(signed char)s[i]; h ^= h << 10; h += h >> 1; }
    h ^= h << 3; h += h >> 5; h ^= h << 4; h += h >> 17; h ^= h << 25; h += h >> 6; return h;
}
tt::tag3* g_tag;
struct Attrs { std::string* out; template <typename F> void operator()(const F& f) { *out += f.name(); *out += ':'; if (auto* n = f.template get<tt::note>()) *out += n->text; else *out += '-'; if (auto* l = f.template get<tt::lim>()) *out += (char)('0' + l->n); else *out += '-'; *out += ';'; } };
struct Attrs2 { std::string* out; template <typename F> void operator()(const F& f) { *out += f.name(); *out += '9'; } };
void bad(const char* what) { sim::violation("T03", "result", "%s gives another result than a lone call", what); }
struct Fields { std::string* out; template <typename F> void operator()(const F& f) { *out += f.name(); *out += ';'; } };
template <typename F> std::string text_of(F f, uint32_t k, bool& lost) { std::string* r = nullptr; uint32_t fired; Out o = guarded([&] { r = new std::string(f()); }, k, false, fired); lost = o == O_NOMEM && fired; if (lost) { sim::probe("out-of-memory"); return {}; } if (o != O_OK) bad("a call"); std::string s(r->data(), r->size()); SutScope ss; delete r; return s; }
void job(uint32_t op, uint32_t k)
{
    static const char* P = "T03"; bool lost = false; std::string s;
    switch (op) {
    case 0: check_encode(chp(2) ? gen_bytes() : g_shared_bytes, false, k, false, P); break;
    case 1: check_encode(chp(2) ? gen_bytes() : g_shared_bytes, true, k, false, P); break;
    case 2: { bool url = chp(2); check_decode(m_encode(chp(2) ? gen_bytes() : g_shared_bytes, url), url, k, false, P, nullptr); break; }
    case 3: { std::string t = m_encode(gen_bytes(), false); b64_damage(t, 1 + choose(FAULT, 12)); check_decode(t, false, k, false, P, nullptr); break; }
    case 4: { P2 x{nullptr, {}, true}; { SutScope ss; x.p = new kl::path; } do_set(x, gen_path(), k, false, P, "set"); if (x.known) { if (x.p->size() != x.want.size()) bad("path::set"); for (size_t i = 0; i < x.want.size(); ++i) { std::string_view v; { SutScope ss; v = (*x.p)[i]; } if (std::string(v) != x.want[i]) bad("path::set"); } } SutScope ss; delete x.p; break; }
    case 5: { for (size_t i = 0; i < g_path_want.size(); ++i) { std::string_view v; { SutScope ss; v = g_path->view()[i]; } if (std::string(v) != g_path_want[i]) bad("a shared path"); } break; }
    case 6: { bool skip = chp(2); std::string d = chp(2) ? "," : ";, "; std::vector<std::string> w; { size_t p = 0; const std::string& t = g_shared_text; while (p < t.size()) { size_t e = t.find_first_of(d, p); bool end = e == std::string::npos; std::string x = t.substr(p, end ? e : e - p); if (!x.empty() || !skip) w.push_back(x); if (end) break; p = e + 1; } }
        std::string want; for (auto& x : w) want += "<" + x + ">";
        s = text_of([&] { std::string r; for (auto& x : kl::split(g_shared_text, d, skip)) { r += '<'; r += x; r += '>'; } return r; }, k, lost); if (!lost && s != want) bad("split"); break; }
    case 7: { std::string want; for (size_t i = 0; i < g_words->size(); ++i) { if (i) want += " | "; want += (*g_words)[i]; } if (g_words->empty()) want = "none";
        // memory failures inside a stream set its badbit, so none are injected here
        s = text_of([&] { std::ostringstream o; o << kl::stream_join(*g_words).set_delimiter(" | ").set_empty_string("none"); return o.str(); }, 0, lost); if (s != want) bad("stream_join"); break; }
    case 8: { uint32_t h; { SutScope ss; h = kl::hash::fnv1a(g_shared_text); } if (h != m_fnv(g_shared_text)) bad("fnv1a"); break; }
    case 9: { uint32_t v = chp(5); static const char* H[] = {"red", "green", "azure"}; std::string w = v < 3 ? H[v] : "unknown <hue>"; s = text_of([&] { return std::string(kl::to_string((tt::hue)v)); }, k, lost); if (!lost && s != w) bad("to_string");
        int g = (int)chp(3); static const int G[] = {-7, 3, 100}; static const char* GN[] = {"low", "mid", "top"}; s = text_of([&] { return std::string(kl::to_string((tt::gap)G[g])); }, 0, lost); if (s != GN[g]) bad("to_string"); break; }
    case 10: { static const char* N[] = {"red", "green", "azure", "blue", "", "Red", "low", "mid", "top", "high"}; uint32_t i = chp(10); std::optional<tt::hue> h; std::optional<tt::gap> g; { SutScope ss; h = kl::from_string<tt::hue>(N[i]); g = kl::from_string<tt::gap>(N[i]); }
        if (h.has_value() != (i < 3) || (h && (uint32_t)*h != i)) bad("from_string"); if (g.has_value() != (i >= 6 && i < 9) || (g && (int)*g != (i == 6 ? -7 : i == 7 ? 3 : 100))) bad("from_string"); break; }
    case 11: { int n = 0, sum = 0, m = 0; { SutScope ss; for (auto v : kl::reflect_enum<tt::gap>().values()) { ++n; sum += (int)v; } for (auto v : kl::enum_range<tt::run_e>{}) { m = m * 10 + (int)v; } } if (n != 3 || sum != 96 || m != 234) bad("values"); break; }
    case 12: { s = text_of([&] { std::string r = kl::ctti::name<tt::rec>(); r += ':'; kl::ctti::reflect_object(*g_rec, Fields{&r}); return r; }, k, lost); if (!lost && s != "tt::rec:a;b;c;") bad("ctti"); break; }
    case 13: { s = text_of([&] { std::ostringstream o; auto j = kl::make_outstream_joiner(o, "-"); for (auto& w : *g_words) { *j = w; ++j; } return o.str(); }, 0, lost); std::string want; for (size_t i = 0; i < g_words->size(); ++i) { if (i) want += "-"; want += (*g_words)[i]; } if (s != want) bad("outstream_joiner"); break; }
    case 14: { uint32_t h; { SutScope ss; h = kl::hash::hsieh(g_shared_text.data(), g_shared_text.size()); } if (h != m_hsieh(g_shared_text)) bad("hsieh"); break; }
    case 15: { uint32_t v = chp(4); static const char* K[] = {"x", "y", "z", "unknown <knot>"}; static const char* F[] = {"fa", "Fb", "fc", "fd"}; bool ok = true;
        s = text_of([&] { return std::string(kl::enum_reflector<tt::knot>::to_string((tt::knot)v)); }, k, lost); if (!lost && s != K[v]) ok = false;
        { SutScope ss; auto q = kl::from_string<tt::knot>(K[v]); if (q.has_value() != (v < 3) || (q && *q != (tt::knot)v)) ok = false; auto f = kl::from_string<tt::flat>(F[v]); if (!f || (uint32_t)*f != v) ok = false; if (kl::from_string<tt::flat>("fb") || kl::from_string<tt::flat>("f")) ok = false;
          auto d = kl::from_string<tt::dup>("uno"); if (!d || (int)*d != 5) ok = false; if (kl::from_string<tt::dup>("un")) ok = false; }
        s = text_of([&] { return std::string(kl::to_string((tt::flat)v)) + kl::to_string((tt::flat)4) + kl::to_string(v & 1 ? tt::dup::uno : tt::dup::two) + kl::enum_reflector<tt::dup>::to_string((tt::dup)6, "?"); }, k, lost); if (!lost && s != std::string(F[v]) + "unknown <flat>" + (v & 1 ? "one" : "two") + "?") ok = false;
        if (!ok) bad("an enum name"); break; }
    case 16: { uint32_t a = chp(16), b = chp(16); using S = kl::enum_set<tt::flat>; bool ok = true; { SutScope ss; S x{(tt::flat)a}, y{(tt::flat)b}; ok = (x & y).underlying_value() == (a & b) && (x | y).underlying_value() == (a | b) && (x ^ y).underlying_value() == (a ^ b) && (~x).underlying_value() == ~a && x.has_any(y) == ((a & b) != 0) && x.has_all(y) == ((a & b) == b) && (x == y) == (a == b) && (x < y) == (a < b) && (bool)x == (a != 0); S z = x; z |= y; ok = ok && z.underlying_value() == (a | b); z &= (tt::flat)b; ok = ok && z.underlying_value() == b; z ^= y; ok = ok && !z; } if (!ok) bad("enum_set"); break; }
    case 17: { s = text_of([&] { std::string r; kl::ctti::reflect_object(*g_tag, Attrs{&r}); kl::ctti::reflect_type<tt::tag3>(Attrs2{&r}); return r; }, k, lost); if (!lost && s != "id:first7;txt:-9;arr:--;id9txt9arr9") bad("field attributes"); { SutScope ss; if (kl::ctti::num_fields<tt::tag3>() != 3 || !kl::ctti::has_any_attribute<tt::tag3, tt::lim>() || kl::ctti::has_any_attribute<tt::tag3, tt::rec>()) bad("num_fields"); } break; }
    case 18: { // consecutive tokens reported one by one, and walking two sequences at once
        std::string want, got2; for (char c : g_shared_text) want += c == ',' ? '|' : c; if (!want.empty() && want.back() == '|') {} else if (!want.empty()) want += '|';
        s = text_of([&] { std::string r; const char d[] = {','}; kl::for_each_token(g_shared_text.begin(), g_shared_text.end(), d, d + 1, [&](auto f, auto l) { r.append(f, l); r += '|'; }); return r; }, k, lost); if (!lost && s != want) bad("for_each_token");
        size_t n = 0, sum = 0, w2 = 0; { SutScope ss; for (const auto& t : kl::zipped(*g_words, g_shared_text)) { ++n; sum += std::get<0>(t).size() * 256 + (unsigned char)std::get<1>(t); } } size_t m = std::min(g_words->size(), g_shared_text.size()); for (size_t i = 0; i < m; ++i) w2 += (*g_words)[i].size() * 256 + (unsigned char)g_shared_text[i]; if (n != m || sum != w2) bad("zip"); break; }
    }
    sim::rec(3, (int)op, (int)k, lost); sim::mix(op);
}
struct Th { uint32_t n; };
void tmain(void* p) { HarnessScope h; for (uint32_t i = ((Th*)p)->n; i--;) { job(chp(19), choose(FAULT, 6) == 5 ? 1 + choose(FAULT, 3) : 0); SutScope s; sim::yield_point(1); } }
void run_mt()
{
    g_shared_bytes = gen_bytes(); static const char* W[] = {"", "a", "bb", ",", ";", " ", "word", "a longer word that is not short"}; g_shared_text.clear(); for (uint32_t n = chp(12); n--;) { g_shared_text += W[chp(8)]; if (chp(2)) g_shared_text += ","; }
    std::string t; Segs w; do t = gen_path(); while (!m_path(t, w)); g_path_want = w; { SutScope s; g_path = new kl::path(t); g_rec = new tt::rec; g_tag = new tt::tag3; }
    g_words = new std::vector<std::string>; for (uint32_t n = chp(4); n--;) g_words->push_back(W[chp(8)]);
    sim::set_alloc_points(choose(SCHED, 2)); g_mt = true; static Th ts[4]; uint32_t nt = 2 + chp(3);
    for (uint32_t i = 0; i < nt; ++i) { ts[i].n = 1 + chp(6); sim::spawn(tmain, &ts[i]); }
    { SutScope s; sim::join_all(); }
    g_mt = false; { SutScope s; delete g_path; delete g_rec; delete g_tag; } delete g_words; sim::nontrivial();
}
void run(const char* prop)
{
    HarnessScope h; g_prop = prop; g_long = false; sim::set_fatal_props(kAll); sim::set_race_props("T03"); sim::set_step_budget(40000000);
    if (!std::strcmp(prop, "T01")) run_b64(); else if (!std::strcmp(prop, "T02")) run_path(); else run_mt();
}
void describe(const sim::Event& e, char* b, int n)
{
    b[0] = 0;
    if (e.kind == 1) snprintf(b, n, "text of %d characters for fragment %d arrives%s: %s", e.b, e.a, e.d ? " damaged" : "", e.c ? "decoded" : "refused");
    else if (e.kind == 2) snprintf(b, n, "path of %d characters: %s", e.a, e.b == 0 ? "taken" : e.b == 1 ? "out of memory" : "refused");
    else if (e.kind == 3) snprintf(b, n, "facility %d used%s", e.a, e.c ? ", out of memory" : "");
}
} // namespace
const sim::Harness sim::harness = {"text", run, describe};

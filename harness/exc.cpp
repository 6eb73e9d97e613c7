// Harness for kl::exception_info (E01, E02) and KL_DEFER (D01).
#include "../sim/simrt.h"
#include <kl/defer.hpp>
#include <kl/exception_info.hpp>
#include <cstdio>
#include <cstring>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <vector>
using sim::choose; using sim::HarnessScope; using sim::SutScope; using sim::PROG; using sim::SCHED; using sim::FAULT;
namespace tags {
struct user_fault {}; 
// a value that counts its instances and whose copies may fail
struct tracked {
    static int live; static uint32_t arm; static uint32_t fired;
    int v; const tracked* me;
    static bool due() { HarnessScope h; if (arm && --arm == 0) { ++fired; sim::fault_fired("value-copy-throws"); return true; } return false; }
    static void point() { if (due()) throw user_fault{}; }
    static void born(int n) { HarnessScope h; live += n; }
    explicit tracked(int x = 0) : v(x), me(this) { born(1); }
    tracked(const tracked& o) : v(o.v), me(this) { if (o.me != &o) sim::violation("E01,E02", "value-lifetime", "a value is copied after it was destroyed"); point(); born(1); }
    tracked(tracked&& o) : v(o.v), me(this) { if (o.me != &o) sim::violation("E01,E02", "value-lifetime", "a value is moved after it was destroyed"); point(); born(1); }
    ~tracked() { if (me != this) sim::violation("E01,E02", "value-lifetime", "a value is destroyed twice"); me = nullptr; born(-1); }
    tracked& operator=(const tracked&) = delete;
};
int tracked::live; uint32_t tracked::arm, tracked::fired;
std::ostream& operator<<(std::ostream& o, const tracked& t) { return o << "tracked" << t.v; }
struct pod { int a; char b[4]; };
struct name { using type = std::string; };
struct code { using type = int; };
struct value { using type = tracked; };
struct blob { using type = pod; };
struct only { using type = std::unique_ptr<int>; }; // move-only
}
namespace {
using namespace tags; using XI = kl::exception_info;
enum Tag { T_NAME, T_CODE, T_VALUE, T_BLOB, T_ONLY, NT };
const char* kTag[] = {"name", "code", "value", "blob", "only"};
struct Entry { int tag; int v; };
struct Model { std::vector<Entry> e; const char* file = nullptr; int line = 0; // newest last
    const Entry* get(int t) const { for (size_t i = e.size(); i--;) if (e[i].tag == t) return &e[i]; return nullptr; }
    void unset(int t) { for (size_t i = e.size(); i--;) if (e[i].tag == t) { e.erase(e.begin() + (long)i); return; } } };
std::string text(int v) { return "information number " + std::to_string(v); }

struct Obj { XI* x; Model m; };
struct boom : std::runtime_error { using std::runtime_error::runtime_error; };
struct heavy : std::exception { std::string s; explicit heavy(std::string x) : s(std::move(x)) {} const char* what() const noexcept override { return s.c_str(); } };
struct plainx { virtual ~plainx() = default; int n = 0; };
struct Carrier { std::exception_ptr p; Model m; int kind; int n; };
struct Worker { int id; int steps; std::vector<Obj> own; };
struct World { std::vector<Obj> pub; std::mutex* mx; std::vector<Carrier> mail; };
World* W; bool g_multi;

const char* kAll = "E01,E02";
void check_get(const XI& x, const Model& m, int t, const char* when, const char* props)
{
    const Entry* e = m.get(t); bool ok = true, has = false; int got = 0;
    { SutScope s; switch (t) {
        case T_NAME: { auto* p = x.get<name>(); has = p; if (p) { HarnessScope h; ok = e && *p == text(e->v); } break; }
        case T_CODE: { auto* p = x.get<code>(); has = p; if (p) { got = *p; ok = e && *p == e->v; } break; }
        case T_VALUE: { auto* p = x.get<value>(); has = p; if (p) { got = p->v; ok = e && p->v == e->v && p->me == p; } break; }
        case T_BLOB: { auto* p = x.get<blob>(); has = p; if (p) { got = p->a; ok = e && p->a == e->v && p->b[3] == (char)e->v; } break; }
        case T_ONLY: { auto* p = x.get<only>(); has = p; if (p) { got = *p ? **p : -1; ok = e && *p && **p == e->v; } break; } } }
    if (has != (e != nullptr)) sim::violation(props, has ? "information-reappeared" : "information-lost", "%s: %s is %s although its own history says otherwise", when, kTag[t], has ? "reported" : "not reported");
    if (!ok) sim::violation(props, "information-changed", "%s: %s reports %d, its own history says %d", when, kTag[t], got, e ? e->v : -1);
}
void check_obj(const XI& x, const Model& m, const char* when, const char* props)
{
    for (int t = 0; t < NT; ++t) check_get(x, m, t, when, props);
    const char* f; int l; { SutScope s; f = x.file(); l = x.line(); }
    if (f != m.file || l != m.line) sim::violation(props, "origin-changed", "%s: file/line differ", when);
}
void check_text(const std::string& s, const Model& m, const char* when)
{
    // every current value is shown, newest first; a tag without value is not shown
    for (int t = 0; t < NT; ++t) {
        std::string key = std::string("tags::") + kTag[t] + " = "; size_t p = s.find(key); const Entry* e = m.get(t);
        if ((p != std::string::npos) != (e != nullptr)) sim::violation("E01", "diagnostic", "%s: the diagnostic text %s %s", when, e ? "misses" : "shows removed", kTag[t]);
        if (!e) continue;
        std::string want = t == T_NAME ? text(e->v) : t == T_CODE ? std::to_string(e->v) : t == T_VALUE ? "tracked" + std::to_string(e->v) : "";
        if (t < T_BLOB && s.compare(p + key.size(), want.size() + 1, want + "\n") != 0) sim::violation("E01", "diagnostic", "%s: the diagnostic text shows another value of %s", when, kTag[t]);
    }
}
struct Armed { uint32_t fired_alloc = 0, fired_user = 0; };
// while several threads run only memory failures (which are per thread) are injected
void arm() { uint32_t c = choose(FAULT, 6); if (!g_multi) tracked::arm = tracked::fired = 0; if (c == 5 && !g_multi) tracked::arm = 1 + choose(FAULT, 3); else if (c >= 3) sim::arm_alloc(1 + choose(FAULT, 4), choose(FAULT, 2)); }
Armed disarm() { Armed a; a.fired_alloc = sim::disarm_alloc(); if (!g_multi) { a.fired_user = tracked::fired; tracked::arm = 0; tracked::fired = 0; } return a; }

template <typename F> int guarded(F f, Armed& a, bool inject) // 0 ok, 1 out of memory, 2 user fault, 3 other
{
    int how = 0; SutScope s; { HarnessScope h; a = Armed{}; if (inject) arm(); }
    try { f(); } catch (const std::bad_alloc&) { how = 1; } catch (const user_fault&) { how = 2; } catch (...) { how = 3; }
    HarnessScope h; if (inject) a = disarm();
    if (a.fired_alloc) sim::fault_fired("memory-failure");
    return how;
}
void judge(int how, const Armed& a, const char* what)
{
    if (how == 3) sim::violation("E02", "wrong-exception", "%s throws an unexpected exception", what);
    if ((how == 1 && !a.fired_alloc) || (how == 2 && !a.fired_user)) sim::violation("E02", "wrong-exception", "%s throws without cause", what);
    if (how == 0 && a.fired_user) sim::violation("E02", "exception-swallowed", "%s swallows an exception of the value", what);
    if (how) sim::probe(how == 1 ? "out-of-memory" : "value-copy-failed");
}
bool inj() { return true; }

Obj make()
{
    Obj o; bool located = choose(PROG, 2); { SutScope s; o.x = located ? new XI("file.cpp", 42, "function") : new XI; }
    if (located) { const char* f; { SutScope s; f = o.x->file(); } o.m.file = f; if (std::strcmp(f, "file.cpp")) sim::violation("E01", "origin-changed", "file differs"); o.m.line = 42; }
    return o;
}
void op_set(XI& x, Model& m)
{
    int t = (int)choose(PROG, NT), v = 1 + (int)choose(PROG, 60); Model before = m; Armed a; bool rv = choose(PROG, 2);
    std::string txt = text(v); tracked tv(v); pod pd{v, {0, 0, 0, (char)v}}; 
    int how = guarded([&] {
        switch (t) {
        case T_NAME: if (rv) { std::string c; { HarnessScope h; c = txt; } x.set<name>(std::move(c)); } else x.set<name>(txt); break;
        case T_CODE: if (rv) x.set<code>(int(v)); else { const int c = v; x.set<code>(c); } break;
        case T_VALUE: if (rv) x.set<value>(std::move(tv)); else x.set<value>(tv); break;
        case T_BLOB: x.set<blob>(pd); break;
        case T_ONLY: { std::unique_ptr<int> u; { HarnessScope h; u = std::make_unique<int>(v); } x.set<only>(std::move(u)); break; }
        } }, a, inj());
    judge(how, a, "set");
    if (!how) m.e.push_back({t, v});
    sim::rec(1, t, v, how); sim::note("set %s=%d%s", kTag[t], v, how ? " fails" : "");
    check_obj(x, m, how ? "after a failed set" : "after set", how ? "E02" : kAll);
}
void op_unset(XI& x, Model& m)
{
    int t = (int)choose(PROG, NT); Armed a;
    int how = guarded([&] { switch (t) { case T_NAME: x.unset<name>(); break; case T_CODE: x.unset<code>(); break; case T_VALUE: x.unset<value>(); break; case T_BLOB: x.unset<blob>(); break; case T_ONLY: x.unset<only>(); break; } }, a, inj());
    judge(how, a, "unset"); if (!how) m.unset(t);
    sim::rec(2, t, how); sim::note("unset %s%s", kTag[t], how ? " fails" : "");
    check_obj(x, m, how ? "after a failed unset" : "after unset", how ? "E02" : "E01"); sim::probe("unset");
}
Obj op_copy(const Obj& o, bool assign_over)
{
    Obj r; r.m = o.m; Armed a; bool ok = true;
    if (!assign_over) { r.x = nullptr; int how = guarded([&] { r.x = new XI(*o.x); }, a, inj()); judge(how, a, "copying"); if (how) { r.x = nullptr; ok = false; } }
    else { r = make(); op_set(*r.x, r.m); Model old = r.m; int how = guarded([&] { *r.x = *o.x; }, a, inj()); judge(how, a, "copy assignment"); if (!how) r.m = o.m; else check_obj(*r.x, old, "after a failed copy assignment", "E02"); }
    if (ok) check_obj(*r.x, r.m, "a copy", kAll);
    check_obj(*o.x, o.m, "the original, after copying", kAll); sim::rec(3, assign_over, ok); sim::probe("copied");
    return r;
}
[[noreturn]] void do_throw(int kind, int n, const XI& x, bool rv)
{
    if (kind == 0) { boom b("boom"); if (rv) { XI c(x); kl::throw_with_info(b, std::move(c)); } kl::throw_with_info(b, x); }
    if (kind == 1) { heavy h(std::string("a heavy exception with a long description number ") + std::to_string(n)); if (rv) kl::throw_with_info(std::move(h), x); kl::throw_with_info(h, x); }
    plainx p; p.n = n; kl::throw_with_info(p, x);
}
// throws with the information, catches it, checks it; maybe mails it to another thread
void op_throw(Obj& o)
{
    int kind = (int)choose(PROG, 3), n = (int)choose(PROG, 50); bool rv = choose(PROG, 2), mail = choose(PROG, 3) == 2, grow = choose(PROG, 2), byval = choose(PROG, 3) == 2; Armed a; Model m = o.m; std::exception_ptr ep; int seen = -1;
    int how = guarded([&] {
        try { do_throw(kind, n, *o.x, rv); }
        catch (const boom& e) { HarnessScope h; a = inj() ? disarm() : a; seen = 0; { SutScope s; if (std::strcmp(e.what(), "boom")) seen = -2; } }
        catch (const heavy& e) { HarnessScope h; a = inj() ? disarm() : a; seen = 1; (void)e; }
        catch (const plainx& e) { HarnessScope h; a = inj() ? disarm() : a; seen = 2; if (e.n != n) seen = -2; }
    }, a, inj());
    judge(how, a, "throw_with_info");
    check_obj(*o.x, o.m, "the information, after being thrown", how ? "E02" : kAll);
    sim::rec(4, kind, how, seen);
    if (how) return;
    if (seen != kind) sim::violation("E02", "wrong-exception", "the exception caught is not the one thrown");
    // again without faults, and look at what arrives
    { SutScope s; try { do_throw(kind, n, *o.x, rv); }
      catch (XI& x) { HarnessScope h; check_obj(x, m, "the caught exception", kAll);
        if (grow) { if (choose(PROG, 2)) op_set(x, m); else op_unset(x, m); check_obj(*o.x, o.m, "the information a caught exception came from", "E01"); }
        if (byval) { XI* c; { SutScope s2; c = new XI(x); } check_obj(*c, m, "a copy of a caught exception", kAll); SutScope s2; delete c; }
        if (mail) { SutScope s2; ep = std::current_exception(); }
      }
      catch (...) { sim::violation("E02", "wrong-exception", "an exception thrown with information does not carry it"); } }
    if (mail) { Carrier c{ep, m, kind, n}; SutScope s; W->mx->lock(); { HarnessScope h; if (W->mail.size() < 12) { W->mail.push_back(c); sim::probe("exception-mailed"); } } W->mx->unlock(); }
}
void op_receive()
{
    Carrier c; bool got = false; { SutScope s; W->mx->lock(); { HarnessScope h; if (!W->mail.empty()) { c = W->mail[choose(PROG, (uint32_t)W->mail.size())]; got = true; } } W->mx->unlock(); }
    if (!got) return;
    SutScope s; std::string txt;
    try { std::rethrow_exception(c.p); }
    catch (const XI& x) { HarnessScope h; check_obj(x, c.m, "a mailed exception", "E01"); XI* k; { SutScope s2; k = new XI(x); } Model m = c.m; if (choose(PROG, 2)) op_unset(*k, m); else op_set(*k, m); check_obj(x, c.m, "a mailed exception, after its copy changed", "E01"); SutScope s2; delete k; }
    catch (...) { sim::violation("E02", "wrong-exception", "a mailed exception lost its information"); }
    HarnessScope h; sim::probe("exception-received"); sim::rec(5, c.kind);
}
void op_text(const Obj& o)
{
    std::string* d = nullptr; Armed a; int how = guarded([&] { d = new std::string(o.x->diagnostic_info()); }, a, false); judge(how, a, "diagnostic_info");
    check_text(*d, o.m, "diagnostic_info"); { SutScope s; delete d; }
    check_obj(*o.x, o.m, "after diagnostic_info", "E01");
}
void work(void* p)
{
    HarnessScope hs; Worker* w = (Worker*)p;
    for (int i = 0; i < w->steps; ++i) {
        uint32_t k = choose(PROG, 16);
        if (w->own.empty() || k == 0) { if (w->own.size() < 8) w->own.push_back(make()); else continue; }
        Obj& o = w->own[choose(PROG, (uint32_t)w->own.size())];
        if (k < 4) op_set(*o.x, o.m);
        else if (k < 7) op_unset(*o.x, o.m);
        else if (k < 10) { const Obj& src = !W->pub.empty() && choose(PROG, 2) ? W->pub[choose(PROG, (uint32_t)W->pub.size())] : o; if (w->own.size() < 8) { Obj c = op_copy(src, choose(PROG, 2)); if (c.x) w->own.push_back(c); } }
        else if (k == 10) { // moves
            if (choose(PROG, 2)) { XI* n; { SutScope s; n = new XI(std::move(*o.x)); delete o.x; } o.x = n; check_obj(*o.x, o.m, "a moved object", "E01"); }
            else { Obj t = make(); { SutScope s; *t.x = std::move(*o.x); delete o.x; } t.m = o.m; o = t; check_obj(*o.x, o.m, "a move-assigned object", "E01"); }
            sim::probe("moved"); }
        else if (k == 11) { SutScope s; XI& self = *o.x; self = *&o.x[0]; HarnessScope h; check_obj(*o.x, o.m, "after self-assignment", "E01"); }
        else if (k < 14) op_throw(o);
        else if (k == 14) op_receive();
        else { op_text(o); if (!W->pub.empty()) check_obj(*W->pub[0].x, W->pub[0].m, "a shared original", "E01"); }
        if (w->own.size() > 4 && choose(PROG, 3) == 2) { Obj d = w->own.back(); w->own.pop_back(); check_obj(*d.x, d.m, "before destruction", "E01"); SutScope s; delete d.x; }
        { SutScope s; sim::yield_point(1); }
    }
    for (auto& o : w->own) check_obj(*o.x, o.m, "at the end", "E01");
    for (auto& o : w->own) { SutScope s; delete o.x; }
    w->own.clear();
}
void run_info()
{
    W = new World; tracked::live = 0; g_multi = false; { SutScope s; W->mx = new std::mutex; }
    int npub = (int)choose(PROG, 3); for (int i = 0; i < npub; ++i) { Obj o = make(); uint32_t n = 1 + choose(PROG, 6); for (uint32_t k = 0; k < n; ++k) if (choose(PROG, 4) == 3) op_unset(*o.x, o.m); else op_set(*o.x, o.m); W->pub.push_back(o); }
    int nt = (int)choose(PROG, 4); static Worker ws[4];
    for (int i = 0; i <= nt; ++i) { ws[i] = Worker{}; ws[i].id = i; ws[i].steps = 3 + (int)choose(PROG, nt ? 14 : 40); }
    if (!nt) { work(&ws[0]); sim::nontrivial(); }
    else { g_multi = true; for (int i = 0; i <= nt; ++i) sim::spawn(work, &ws[i]); sim::join_all(); g_multi = false; sim::nontrivial(); sim::probe("several-threads"); }
    for (auto& o : W->pub) { check_obj(*o.x, o.m, "a shared original, at the end", "E01"); op_text(o); SutScope s; delete o.x; }
    { std::vector<Carrier> mail; mail.swap(W->mail); SutScope s; for (auto& c : mail) c.p = nullptr; HarnessScope h; }
    { SutScope s; delete W->mx; }
    if (tracked::live != 0) sim::violation(kAll, "value-lifetime", "%d value(s) were never destroyed", tracked::live);
    sim::leak_check(kAll);
}

// ---------------------------------------------------------------- D01
struct Shadow { std::vector<int> st; int next = 1; bool dead = false; };
struct DWorker { Shadow sh; int steps; };
struct stop {};
void ran(Shadow& sh, int id, int seen, int want)
{
    HarnessScope h; sim::rec(21, id);
    if (sh.st.empty() || sh.st.back() != id) sim::violation("D01", sh.st.empty() ? "ran-twice" : "order", "deferred action %d runs %s", id, sh.st.empty() ? "although none is pending" : "out of order or twice");
    if (seen != want) sim::violation("D01", "stale-value", "deferred action %d sees %d, the variable is %d", id, seen, want);
    sh.st.pop_back();
}
int reg(Shadow& sh) { HarnessScope h; int id = sh.next++; sh.st.push_back(id); sim::rec(20, id); return id; }
size_t height(Shadow& sh) { HarnessScope h; return sh.st.size(); }
void expect_height(Shadow& sh, size_t n, const char* when) { HarnessScope h; if (sh.st.size() != n) sim::violation("D01", sh.st.size() > n ? "not-run" : "ran-early", "%s: %zu deferred action(s) are pending, expected %zu", when, sh.st.size(), n); }
uint32_t ch(uint32_t n) { HarnessScope h; return choose(PROG, n); }
// a step of user code that may fail
void step(DWorker& w) { { HarnessScope h; uint32_t f = choose(FAULT, 12); if (f == 11) { sim::fault_fired("exception"); } else if (f == 10) { sim::fault_fired("memory-failure"); } w.steps--; if (f < 10) { SutScope s; sim::yield_point(2); return; } if (f == 10) throw std::bad_alloc(); } throw stop{}; }
int level(DWorker& w, int depth)
{
    Shadow& sh = w.sh; size_t h0 = height(sh); int x = 0, y = 0;
    step(w);
    int a = reg(sh); KL_DEFER(ran(sh, a, x, y));
    x = y = 1; step(w); expect_height(sh, h0 + 1, "after one registration");
    if (ch(4) == 1) return 1;
    int b = reg(sh); KL_DEFER(ran(sh, b, x, y); int z = x; (void)z);
    x = y = 2; step(w); expect_height(sh, h0 + 2, "after two registrations");
    uint32_t n = ch(4); size_t h1 = height(sh);
    for (uint32_t i = 0; i < n; ++i) {
        expect_height(sh, h1, "at the start of an iteration");
        int c = reg(sh); KL_DEFER({ ran(sh, c, x, y); });
        x = ++y; step(w);
        uint32_t k = ch(8);
        if (k == 1) break;
        if (k == 2) continue;
        if (k == 3) return 2;
        if (k == 4 && depth < 4 && w.steps > 0) { size_t h2 = height(sh); try { level(w, depth + 1); } catch (const stop&) { expect_height(sh, h2, "after an exception left the inner scope"); } expect_height(sh, h2, "after an inner scope"); }
        if (k == 5) { int d = reg(sh); KL_DEFER(ran(sh, d, x, y)); int e = reg(sh); KL_DEFER(ran(sh, e, x, y)); x = y = 7 + (int)i; step(w); }
        if (k == 6) { auto inner = [&] { int d = reg(sh); KL_DEFER(ran(sh, d, y, x)); step(w); return x; }; inner(); }
        if (k == 7) { // an action that itself uses scopes with deferred actions
            int d = reg(sh);
            KL_DEFER(ran(sh, d, x, y); size_t h3 = height(sh); try { int g = reg(sh); KL_DEFER(ran(sh, g, x, y)); step(w); } catch (...) { } expect_height(sh, h3, "after a scope inside an action"));
            step(w);
        }
    }
    expect_height(sh, h1, "after the loop");
    int f = reg(sh); KL_DEFER(ran(sh, f, x, y));
    if (depth < 3 && ch(3) == 1 && w.steps > 0) { x = y = 9; return level(w, depth + 1); }
    x = y = -1;
    return 0;
}
void dwork(void* p)
{
    HarnessScope hs; DWorker* w = (DWorker*)p;
    for (int i = 0; i < 3 && w->steps > 0; ++i) {
        bool threw = false; { SutScope s; try { level(*w, 0); } catch (const stop&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } }
        if (!w->sh.st.empty()) sim::violation("D01", "not-run", "%zu deferred action(s) were not run when their scope was left%s", w->sh.st.size(), threw ? " by an exception" : "");
        sim::probe(threw ? "left-by-exception" : "left-normally"); sim::mix((uint64_t)w->sh.next * 2 + threw);
    }
}
void run_defer()
{
    static DWorker ws[3]; int n = (int)choose(PROG, 3);
    for (int i = 0; i <= n; ++i) { ws[i] = DWorker{}; ws[i].steps = 10 + (int)choose(PROG, 60); }
    if (!n) dwork(&ws[0]); else { for (int i = 0; i <= n; ++i) sim::spawn(dwork, &ws[i]); sim::join_all(); sim::probe("several-threads"); }
    sim::nontrivial(); sim::leak_check("D01");
}
void run(const char* prop)
{
    HarnessScope hs;
    const char* ps = prop[0] == 'D' ? "D01" : kAll;
    sim::set_fatal_props(ps); sim::set_race_props(prop[0] == 'D' ? "D01" : "E01"); sim::set_step_budget(5000000);
    if (prop[0] == 'D') run_defer(); else run_info();
}
void describe(const sim::Event& e, char* b, int n)
{
    b[0] = 0;
    if (e.kind == 20) snprintf(b, n, "action %d registered", e.a); else if (e.kind == 21) snprintf(b, n, "action %d runs", e.a);
}
} // namespace
const sim::Harness sim::harness = {"exc", run, describe};

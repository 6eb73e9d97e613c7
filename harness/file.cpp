// Harness for kl::file_view: real library code over a simulated kernel (fsk.cpp).
#include "../sim/simrt.h"
#include "fsk.h"
#include <kl/file_view.hpp>
#include <cstdio>
#include <cstring>
#include <memory>
#include <new>
#include <system_error>
#include <type_traits>
#include <vector>
using sim::choose; using sim::HarnessScope; using sim::SutScope; using sim::PROG; using sim::SCHED; using sim::FAULT;
namespace {
using FV = kl::file_view;
enum { E_OPEN = 1, E_VIEW, E_THROW, E_DESTROY, E_MOVE };
struct View { alignas(FV) unsigned char mem[sizeof(FV)]; int owner; int file; const void* p; size_t n; bool mapped; FV* fv() { return reinterpret_cast<FV*>(mem); } };
int g_next_owner; bool g_content = true; // content is F01's business; a wrong view must not hide what its destruction does
struct Worker { int id; std::vector<View*> views; std::vector<int> appfds; int steps; };

void look(View* v, const char* when)
{
    gsl::span<const std::byte> s; { SutScope u; s = v->fv()->get_bytes(); }
    if ((const void*)s.data() != v->p || s.size() != v->n) sim::violation("F01", "view-changed", "%s: the view of file%d changed its address or size", when, v->file);
    if (!g_content) return;
    if (const char* why = fsk::still_good(v->owner, v->p, v->n)) sim::violation("F01,F02", "view-invalid", "%s: the view of file%d is unusable: %s", when, v->file, why);
    if (const char* why = fsk::judge(v->owner, v->file, v->p, v->n)) sim::violation("F01", "view-content", "%s: the view of file%d is wrong: %s", when, v->file, why);
}
void do_open(Worker* w)
{
    if (w->views.size() >= 6 || g_next_owner >= 120) return;
    int f = (int)choose(PROG, fsk::kFiles); int o = g_next_owner++;
    uint32_t k = choose(FAULT, 6) == 5 ? 1 + choose(FAULT, 4) : 0;
    View* v = new View; v->owner = o; v->file = f;
    enum { OK, SYS, BAD, OTHER } how = OK; int code = 0; bool cat = true; uint32_t fired;
    sim::rec(E_OPEN, o, f); sim::note("open a view #%d of %s", o, fsk::path(f));
    fsk::begin_op(o, f);
    {
        SutScope s;
        { HarnessScope h; sim::arm_alloc(k, false); }
        try { new (v->mem) FV(fsk::path(f)); }
        catch (const std::system_error& e) { HarnessScope h; how = SYS; code = e.code().value(); cat = e.code().category() == std::system_category() || e.code().category() == std::generic_category(); }
        catch (const std::bad_alloc&) { how = BAD; }
        catch (...) { how = OTHER; }
        HarnessScope h; fired = sim::disarm_alloc();
    }
    fsk::Report r = fsk::end_op();
    sim::mix((uint64_t)how * 1000 + (uint64_t)code);
    if (r.leaked_fd >= 0) sim::violation("F02", "descriptor-leaked", "descriptor %d stays open after opening file%d %s", r.leaked_fd, f, how == OK ? "succeeded" : "failed");
    if (how == OK) {
        gsl::span<const std::byte> s; { SutScope u; s = v->fv()->get_bytes(); }
        v->p = s.data(); v->n = s.size();
        sim::rec(E_VIEW, o, (int)(v->n & 0x7fffffff));
        if (g_content) if (const char* why = fsk::judge(o, f, v->p, v->n)) sim::violation(r.nerr ? "F01,F02" : "F01", "view-content", "file%d was opened%s%s but the view is wrong: %s", f, r.nerr ? " although this call failed: " : "", r.nerr ? r.calls[r.nerr - 1] : "", why);
        v->mapped = r.maps_made > 0; if (r.maps_made > 1) sim::violation("F02", "mapping-leaked", "opening file%d left %d mappings", f, r.maps_made);
        w->views.push_back(v); sim::probe(v->n == 0 ? "empty-file" : v->n >= (1ull << 31) ? "file-over-2GiB" : v->n % 4096 == 0 ? "page-multiple" : "ordinary-file");
        if (r.nerr) sim::probe("opened-despite-failure");
        if (w->views.size() > 1) sim::nontrivial();
        return;
    }
    sim::rec(E_THROW, o, how, code); sim::note("  throws %s %d", how == SYS ? "system_error" : how == BAD ? "bad_alloc" : "something else", code);
    delete v;
    if (r.maps_made) sim::violation("F02", "mapping-leaked", "a mapping stays after opening file%d failed", f);
    if (how == OTHER) sim::violation("F01", "wrong-exception", "opening file%d throws something that is neither system_error nor bad_alloc", f);
    if (how == BAD) { if (!fired) sim::violation("F01", "wrong-exception", "bad_alloc although memory is available"); sim::probe("bad-alloc"); return; }
    bool ok = false; for (int i = 0; i < r.nerr; ++i) ok |= r.errs[i] == code;
    if (!r.nerr) sim::violation("F01", "error-without-cause", "opening file%d reports error %d although every call succeeded", f, code);
    if (!ok || !cat) sim::violation("F01", "wrong-error-code", "opening file%d reports error %d, but %s failed with %d", f, code, r.calls[r.nerr - 1], r.errs[r.nerr - 1]);
    ok = false; int own = 0; for (int i = 0; i < r.nerr; ++i) if (r.errs[i] == code) { ok |= !r.own[i]; own = i; }
    if (!ok) sim::violation("F01", "readable-refused", "file%d is readable, yet opening it fails with %d: its own call %s asks for what reading does not need", f, code, r.calls[own]);
    sim::probe("system-error"); sim::nontrivial();
}
void do_destroy(Worker* w, size_t i)
{
    View* v = w->views[i]; look(v, "before destruction");
    fsk::expect_mappings(v->owner, v->mapped ? 1 : 0, "before destruction");
    w->views.erase(w->views.begin() + (long)i);
    sim::rec(E_DESTROY, v->owner); sim::note("destroy view #%d", v->owner);
    int o = v->owner; // the destructor acts for the view it destroys
    fsk::begin_op(o, -1);
    { SutScope s; v->fv()->~FV(); }
    fsk::end_op();
    fsk::expect_mappings(o, 0, "after the view died");
    delete v;
}
template <typename T> T* at(View* v) { return reinterpret_cast<T*>(v->mem); }
template <typename T> void kill(T* p) { p->~T(); }
template <typename T> void do_transfer(Worker* w)
{
    if (w->views.empty()) return;
    size_t i = choose(PROG, (uint32_t)w->views.size()); View* v = w->views[i];
    if constexpr (std::is_copy_constructible_v<T>) {
        if (choose(PROG, 2)) { // a copy: its own mapping or a shared one, but each unmapped once, after both are dead
            sim::probe("copied"); View* c = new View(*v); fsk::begin_op(v->owner, -1); { SutScope s; new (c->mem) T(*at<T>(v)); } { SutScope s; kill(at<T>(v)); } fsk::end_op();
            gsl::span<const std::byte> s; { SutScope u; s = at<T>(c)->get_bytes(); } c->p = s.data(); c->n = s.size();
            look(c, "copy, after the original died"); w->views[i] = c; delete v; return;
        }
    }
    if constexpr (std::is_move_constructible_v<T>) {
        sim::probe("moved"); View* c = new View(*v); sim::rec(E_MOVE, v->owner);
        fsk::begin_op(v->owner, -1); { SutScope s; new (c->mem) T(std::move(*at<T>(v))); } if (choose(PROG, 2)) { SutScope s; kill(at<T>(v)); new (v->mem) T(std::move(*at<T>(c))); kill(at<T>(c)); new (c->mem) T(std::move(*at<T>(v))); kill(at<T>(v)); } else { SutScope s; kill(at<T>(v)); } fsk::end_op();
        gsl::span<const std::byte> s; { SutScope u; s = at<T>(c)->get_bytes(); } c->p = s.data(); c->n = s.size();
        look(c, "moved view"); w->views[i] = c; delete v;
        if constexpr (std::is_move_assignable_v<T>) if (w->views.size() > 1 && choose(PROG, 2)) {
            size_t a = 0, b = 1; View *x = w->views[a], *y = w->views[b]; // x takes over y; what x held goes with y at the latest
            int yo = y->owner; fsk::set_owner_of_mappings(x->owner, yo); fsk::begin_op(yo, -1); { SutScope s; *at<T>(x) = std::move(*at<T>(y)); kill(at<T>(y)); } fsk::end_op();
            x->p = y->p; x->n = y->n; x->file = y->file; x->mapped = y->mapped; x->owner = yo;
            fsk::expect_mappings(x->owner, x->mapped ? 1 : 0, "after a move assignment");
            delete y; w->views.erase(w->views.begin() + 1);
        }
    }
}
void work(void* a)
{
    HarnessScope hs; Worker* w = static_cast<Worker*>(a);
    for (int i = 0; i < w->steps; ++i) {
        uint32_t k = choose(PROG, 16);
        if (k < 7) do_open(w);
        else if (k < 10) { if (!w->views.empty()) do_destroy(w, choose(PROG, (uint32_t)w->views.size())); }
        else if (k < 11) { if (!w->views.empty()) look(w->views[choose(PROG, (uint32_t)w->views.size())], "later"); }
        else if (k < 12) fsk::replace_file((int)choose(PROG, 5));
        else if (k < 14) { int fd = fsk::app_open(); if (fd >= 0) w->appfds.push_back(fd); }
        else if (k < 15) { if (!w->appfds.empty()) { int fd = w->appfds.back(); w->appfds.pop_back(); if (!fsk::app_fd_intact(fd)) sim::violation("F02", "foreign-close", "descriptor %d of the application was closed by a view", fd); fsk::app_close(fd); } }
        else do_transfer<FV>(w);
        { SutScope s; sim::yield_point(9); }
    }
    for (int fd : w->appfds) if (!fsk::app_fd_intact(fd)) sim::violation("F02", "foreign-close", "descriptor %d of the application was closed by a view", fd);
    for (auto* v : w->views) look(v, "at the end");
    while (!w->views.empty()) do_destroy(w, choose(PROG, (uint32_t)w->views.size()));
}
void run(const char* prop)
{
    HarnessScope hs;
    sim::set_fatal_props("F01,F02"); sim::set_race_props("F01,F02"); sim::set_step_budget(5000000);
    g_next_owner = 1; g_content = prop[2] == '1';
    int rate = (int)choose(FAULT, 4);
    fsk::init(choose(PROG, 3) == 2 ? 1 + (int)choose(PROG, 3) : 0, rate);
    int n = (int)choose(PROG, 4); Worker ws[4];
    for (int i = 0; i <= n; ++i) { ws[i].id = i; ws[i].steps = 2 + (int)choose(PROG, 14); }
    if (n == 0) work(&ws[0]);
    else { for (int i = 0; i <= n; ++i) sim::spawn(work, &ws[i]); sim::join_all(); sim::nontrivial(); sim::probe("several-threads"); }
    if (fsk::live_mappings()) sim::violation("F02", "mapping-leaked", "%d mapping(s) are left when every view is dead", fsk::live_mappings());
    if (fsk::open_fds_of_views()) sim::violation("F02", "descriptor-leaked", "%d descriptor(s) of views are left", fsk::open_fds_of_views());
    sim::leak_check("F02");
}
void describe(const sim::Event& e, char* b, int n)
{
    switch (e.kind) {
    case E_VIEW: snprintf(b, n, "view #%d has %d bytes", e.a, e.b); break;
    default: b[0] = 0;
    }
}
} // namespace
const sim::Harness sim::harness = {"file", run, describe};

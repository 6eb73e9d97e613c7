// Simulation harness for kl::signal / connection / scoped_connection / blocker / this_signal (S01..S09).
// Real code: include/kl/signal.hpp, include/kl/defer.hpp (instrumented, unmodified). Stubs: none (scheduler,
// mutexes, allocator and clock are the simulator's).
#include "../sim/simrt.h"
#include <kl/signal.hpp>
#include <cstdio>
#include <cstring>
#include <memory>
#include <new>
#include <utility>
#include <vector>

using sim::HarnessScope; using sim::SutScope; using sim::PROG; using sim::FAULT; using sim::rec; using sim::choose;

namespace {
constexpr int kSigs = 3, kConns = 6, kScoped = 3, kBlk = 4, kMaxSlots = 96, kMaxEm = 160, kMaxInv = 1500, kMaxOps = 140, kScripts = 10;

enum Ev { E_CONNECT_B, E_CONNECT_E, E_DISC_B, E_DISC_E, E_EMIT_B, E_EMIT_E, E_INV_B, E_INV_E, E_BLOCK_B, E_BLOCK_E, E_UNBLOCK_B, E_UNBLOCK_E,
          E_STOP, E_THROW, E_DESTROYED, E_ALLDISC_B, E_ALLDISC_E, E_COUNT_B, E_COUNT_E, E_CONN_Q, E_MOVE, E_SIGDEL_B, E_SIGDEL_E, E_HANDLE, E_EXPIRE, E_TERM_B, E_CONNECT_FAIL, E_DTOR_OP, E_CUR };

struct TestEx { int uid; };

struct Payload {
    int val; int eid;
    Payload(int v, int e) : val(v), eid(e) {}
    Payload(const Payload& o);
    Payload(Payload&& o) noexcept : val(o.val), eid(o.eid) { o.val = -1; o.eid = -1; }
    Payload& operator=(const Payload&) = default;
};
struct Acc { int n; }; // passed by reference: what a slot writes, the emitter sees
using Sig = kl::signal<void(int, Payload, Acc&)>;

enum OpK { O_YIELD, O_EMIT, O_CONNECT, O_DISC, O_BLOCK, O_UNBLOCK, O_COUNT, O_CONNQ, O_DISCALL, O_SCOPED, O_STOP, O_THROW, O_SELFDISC, O_CURSAVE, O_HANDLE, O_BLKOP, O_EXPIRE, O_MOVE, O_TERM, O_N };
struct Op { int k, a, b, c; };

struct Interval { uint32_t cb, ce, db, de; };
struct SlotI {
    int sig; bool front; uint32_t cb, ce; bool failed; int script, dtor; size_t hash; int live; int form; bool forward; int fwd_to;
    uint32_t disc_b, disc_e, expired, destroyed; int handles; bool dtor_ran; bool ever_moved; int nblk; Interval blk[24]; int creator, phase; bool was_blocked;
};
struct Em { int eid, sig, tid; uint32_t b, e; bool implicit, done, stopped; int thrown, got; int inv0; int parent; };
struct Inv { int sid, em, tid; uint32_t b, e; bool stopped; int thrown; const void* inst; };

struct Conn { kl::connection c; int sid = -1; };
struct Scoped { kl::scoped_connection s; int sid = -1; };
struct Blk { kl::connection::blocker b; int sid = -1; int iv = -1; };
// Two handle sets per thread: operations made from a callable's destructor use their own, so that they never
// touch the very handle object whose assignment or destruction is running them.
struct HSet { Conn conn[kConns]; Scoped sc[kScoped]; Blk* blk[kBlk]; };
struct ThreadCtx { HSet hs[2]; int depth; int in_slot; int cur_em; int in_dtor; HSet& h() { return hs[in_dtor ? 1 : 0]; } };

struct World {
    const char* prop;
    Sig* sig[kSigs]; bool dead[kSigs]; int nsig;
    SlotI slot[kMaxSlots]; int nslots;
    Em em[kMaxEm]; int nem;
    Inv inv[kMaxInv]; int ninv;
    int ops_left; int uid; bool any_stop, any_throw, any_move, any_fault, any_dtorop; int inflight; int term_inv = -1;
    ThreadCtx* th[sim::kMaxThreads];
    std::vector<Op> script[kScripts]; std::vector<Op> prog[sim::kMaxThreads]; int nthreads;
    std::vector<Op> dtor_script[4];
    std::vector<std::shared_ptr<void>> keep;   // owners of shared/weak receivers, indexed by slot
    signed char order[kMaxSlots][kMaxSlots];   // observed relative order
    bool fault_args; bool allow_dtor_ops; bool multi; int phase; int discall[kSigs]; uint32_t discall_b[kSigs];
};
World* W;
ThreadCtx& me() { return *W->th[sim::self()]; }
bool prop_is(const char* p) { return !strcmp(W->prop, p); }

Payload::Payload(const Payload& o) : val(o.val), eid(o.eid)
{
    bool thr = false; int uid = 0;
    { HarnessScope h; if (W->fault_args && o.eid >= 0 && W->em[o.eid].b && !W->em[o.eid].done && sim::chance(FAULT, 1, 24)) { uid = ++W->uid; W->any_throw = true; thr = true; sim::fault_fired("argument-copy-throws"); rec(E_THROW, -1, uid, o.eid);
        // the emission whose argument is copied: innermost one carrying this id on this thread
        int em = -1; for (int i = 0; i < W->nem; ++i) if (W->em[i].eid == o.eid && !W->em[i].done) em = i; if (em >= 0) W->em[o.eid].thrown = uid; if (em >= 0) W->em[em].thrown = uid; } }
    if (thr) throw TestEx{uid};
}

void tags(char* out, const char* base, bool stop, bool thr, bool blk, bool mov)
{
    strcpy(out, base);
    if (stop && !strstr(out, "S06")) strcat(out, ",S06");
    if (thr && !strstr(out, "S07")) strcat(out, ",S07");
    if (blk && !strstr(out, "S03")) strcat(out, ",S03");
    if (mov && !strstr(out, "S08")) strcat(out, ",S08");
}
#define VTAG(base, sl, cls, ...) do { char tg[64]; tags(tg, base, W->any_stop, W->any_throw || W->any_fault, (sl) >= 0 && W->slot[sl].was_blocked, W->any_move); sim::violation(tg, cls, __VA_ARGS__); } while (0)

// ------------------------------------------------------------------------------------------ callables
bool owned_by_slot(int form) { return form == 0 || form == 1 || form == 4 || form == 6; } // the slot owns the tracked object
void body(int sid, int eid, Payload& p, const void* inst);
void run_dtor_ops(int sid);

struct Tracker { // counts live instances of a slot's callable
    int sid; kl::scoped_connection* inner;
    explicit Tracker(int s) : sid(s), inner(nullptr) { HarnessScope h; W->slot[s].live++; }
    Tracker(const Tracker& o) : sid(o.sid), inner(nullptr) { HarnessScope h; W->slot[sid].live++; }
    Tracker(Tracker&& o) noexcept : sid(o.sid), inner(o.inner) { HarnessScope h; o.inner = nullptr; W->slot[sid].live++; }
    ~Tracker()
    {
        bool last = false; kl::scoped_connection* in = inner; inner = nullptr;
        {
            HarnessScope h; SlotI& s = W->slot[sid];
            for (int i = 0; i < W->ninv; ++i) if (W->inv[i].inst == this && !W->inv[i].e) sim::violation("S04", "destroyed-in-use", "the callable of slot %d is destroyed while thread %d is running it", sid, W->inv[i].tid);
            if (s.live <= 0) sim::violation("S04", "destroyed-twice", "the callable of slot %d is destroyed twice", sid);
            if (--s.live == 0 && s.ce && !s.failed) {
                last = true;
                if (s.destroyed) sim::violation("S04", "destroyed-twice", "the callable of slot %d is destroyed twice", sid);
                s.destroyed = rec(E_DESTROYED, sid);
                if (!s.disc_b && owned_by_slot(s.form)) sim::violation("S04,S02", "destroyed-connected", "the callable of slot %d is destroyed although nobody disconnected it", sid);
            }
        }
        if (in) { delete in; }
        if (last) { sim::yield_point(3); run_dtor_ops(sid); }
    }
};
struct Callable { // large: lives on the heap inside std::function
    Tracker t; int pad[6];
    explicit Callable(int sid) : t(sid) { for (int& x : pad) x = 7; }
    void operator()(int eid, Payload p, Acc& a) const { a.n++; body(t.sid, eid, p, &t); }
};
struct SmallCallable { // fits the small buffer of std::function (trivially copyable: no tracker)
    int sid;
    void operator()(int eid, Payload p, Acc& a) const { a.n++; body(sid, eid, p, nullptr); }
};
struct Receiver {
    Tracker t;
    explicit Receiver(int sid) : t(sid) {}
    void on(int eid, Payload p, Acc& a) { a.n++; body(t.sid, eid, p, &t); }
    void con(int eid, Payload p, Acc& a) const { a.n++; body(t.sid, eid, p, &t); }
};

// ------------------------------------------------------------------------------------------ oracle
bool before(int x, int y) // x definitely precedes y in the list
{
    const SlotI &a = W->slot[x], &b = W->slot[y];
    if (a.front && !b.front) return true;
    if (!a.front && b.front) return false;
    if (!a.front) return a.ce && a.ce < b.cb;
    return b.ce && b.ce < a.cb;
}
const char* nm(int sid) { static char b[8][16]; static int i; i = (i + 1) & 7; snprintf(b[i], 16, "slot %d", sid); return b[i]; }

void check_invocation(int ii) // at the start of an invocation
{
    Inv& I = W->inv[ii]; Em& E = W->em[I.em]; SlotI& s = W->slot[I.sid];
    uint32_t lo = E.b, first = 0; int n = 0;
    for (int j = E.inv0; j < ii; ++j) {
        Inv& J = W->inv[j]; if (J.em != I.em) continue; n++;
        if (!first) first = J.b;
        if (J.e > lo) lo = J.e;
        if (J.sid == I.sid) VTAG("S01", I.sid, "invoked-twice", "%s is invoked twice by one emission", nm(I.sid));
        if (J.stopped) VTAG("S06", -1, "stop-ignored", "%s is invoked after slot %d stopped this emission", nm(I.sid), J.sid);
        if (J.thrown) VTAG("S07,S01", -1, "after-throw", "%s is invoked after slot %d threw out of this emission", nm(I.sid), J.sid);
        if (before(I.sid, J.sid)) VTAG("S01", -1, "order", "%s is invoked after slot %d, which was connected behind it", nm(I.sid), J.sid);
        if (W->order[I.sid][J.sid] == 1) VTAG("S01", -1, "order", "slots %d and %d are invoked in different orders by different emissions", I.sid, J.sid);
        W->order[J.sid][I.sid] = 1;
    }
    if (E.stopped && !E.implicit) VTAG("S06", -1, "stop-ignored", "%s is invoked after the emission was stopped", nm(I.sid));
    if (s.sig != E.sig) VTAG("S01,S08", -1, "wrong-signal", "%s belongs to signal %d but is invoked by signal %d", nm(I.sid), s.sig, E.sig);
    if (n == 0) first = I.b;
    if (s.cb > first) VTAG("S01", -1, "visited-new", "%s, whose connection began after the emission had begun visiting slots, is invoked by it", nm(I.sid));
    if (s.disc_e && s.disc_e < lo) VTAG("S02", -1, "invoked-after-disconnect", "%s is invoked although its disconnection had returned before the emission reached it", nm(I.sid));
    if (s.failed) VTAG("S07", -1, "failed-connect-invoked", "%s is invoked although connecting it failed", nm(I.sid));
    if (s.destroyed) sim::violation("S04", "invoked-destroyed", "%s is invoked after its callable was destroyed", nm(I.sid));
    for (int k = 0; k < s.nblk; ++k) { Interval& v = s.blk[k]; if (v.ce && v.ce < lo && !v.db) sim::violation("S03", "invoked-blocked", "%s is invoked although a blocker of it exists", nm(I.sid)); }
}
void check_emission_end(int ei)
{
    Em& E = W->em[ei];
    int last = -1, n = 0; bool stopped = false; int thrown = 0;
    for (int j = E.inv0; j < W->ninv; ++j) if (W->inv[j].em == ei) { last = j; n++; if (W->inv[j].stopped) stopped = true; if (W->inv[j].thrown) thrown = W->inv[j].thrown; }
    if (E.thrown) thrown = E.thrown;
    (void)last;
    if (!E.implicit) {
        if (E.got != thrown) {
            if (!E.got) sim::violation("S07", "exception-lost", "an exception thrown by a slot did not reach the emitter");
            sim::violation("S07", "exception-changed", "the emitter sees exception %d, the slot threw %d", E.got, thrown);
        }
    }
    bool interrupted = stopped || thrown || E.stopped;
    for (int s = 0; s < W->nslots; ++s) {
        SlotI& S = W->slot[s];
        if (S.sig != E.sig || S.failed || S.forward || !S.ce || S.ce >= E.b) continue;
        bool inv = false; uint32_t lo = E.b, hi = 0;
        for (int j = E.inv0; j < W->ninv; ++j) { Inv& J = W->inv[j]; if (J.em != ei) continue; if (J.sid == s) { inv = true; break; } if (before(s, J.sid) && (!hi || J.b < hi)) hi = J.b; if (before(J.sid, s) && J.e > lo) lo = J.e; }
        if (inv) continue;
        if (!hi) { if (interrupted) continue; hi = E.e; }
        if (S.disc_b && S.disc_b < hi) continue;
        if (S.expired && S.expired < hi) continue;
        bool blk = false; for (int k = 0; k < S.nblk; ++k) if (S.blk[k].cb && S.blk[k].cb < hi && (!S.blk[k].de || S.blk[k].de > lo)) blk = true;
        if (blk) continue;
        VTAG("S01", s, "missed", "%s, connected and unblocked throughout, is not invoked by an emission of signal %d (%d other slots were)", nm(s), E.sig, n);
    }
}
int find_implicit(int eid, int sig)
{
    for (int i = W->nem - 1; i >= 0; --i) if (W->em[i].eid == eid && W->em[i].sig == sig && !W->em[i].done) return i;
    return -1;
}
int new_em(int eid, int sig, bool implicit)
{
    if (W->nem >= kMaxEm) return -1;
    int i = W->nem++; Em& E = W->em[i]; memset(&E, 0, sizeof E); E.eid = implicit ? eid : i; E.sig = sig; E.tid = sim::self(); E.implicit = implicit; E.inv0 = W->ninv; E.parent = me().cur_em; return i;
}

void exec(const Op& op);

void check_current(int sid, const char* when)
{
    size_t h; bool empty;
    { SutScope s; kl::connection c = kl::this_signal::current_connection(); h = c.hash(); empty = (c == kl::connection{}); }
    if (sid < 0) { if (!empty) VTAG("S06", -1, "current-outside", "the current connection is not empty outside every slot (%s)", when); return; }
    SlotI& s = W->slot[sid];
    if (empty) VTAG("S06", -1, "current-empty", "the current connection is empty inside %s (%s)", nm(sid), when);
    if (s.hash && s.hash != h) VTAG("S06", -1, "current-wrong", "the current connection inside %s designates another slot (%s)", nm(sid), when);
    if (!s.hash) s.hash = h; // connect() has not returned yet: remember and compare when it does
}

void body(int sid, int eid, Payload& p, const void* inst)
{
    sim::yield_point(1);
    int thr = 0;
    {
        HarnessScope h; ThreadCtx& T = me();
        if (eid < 0 || eid >= W->nem || W->em[eid].implicit) sim::violation("S01", "bad-argument", "%s receives a wrong first argument", nm(sid));
        if (p.val != 1000 + eid || p.eid != eid) sim::violation("S01", "bad-argument", "%s receives wrong argument values (%d instead of %d)", nm(sid), p.val, 1000 + eid);
        int ei = find_implicit(eid, W->slot[sid].sig);
        if (ei < 0) { // forwarded from another signal
            bool fwd = false; for (int k = 0; k < W->nslots; ++k) if (W->slot[k].forward && W->slot[k].fwd_to == W->slot[sid].sig) fwd = true;
            if (!fwd || W->em[eid].done) VTAG("S01,S08", -1, "wrong-signal", "%s is invoked by an emission of another signal", nm(sid));
            ei = new_em(eid, W->slot[sid].sig, true); if (ei < 0) sim::finish_ok();
            W->em[ei].b = W->em[eid].b; for (int j = W->em[eid].inv0; j < W->ninv; ++j) if (W->inv[j].em == eid && W->inv[j].e > W->em[ei].b) W->em[ei].b = W->inv[j].e;
        }
        if (W->em[ei].tid != sim::self()) VTAG("S01", -1, "wrong-thread", "%s is invoked on a thread that did not emit", nm(sid));
        if (W->ninv >= kMaxInv) sim::finish_ok();
        int ii = W->ninv++; Inv& I = W->inv[ii]; I = Inv{sid, ei, sim::self(), 0, 0, false, 0, inst};
        I.b = rec(E_INV_B, sid, eid, W->slot[sid].sig);
        check_invocation(ii);
        int save_slot = T.in_slot, save_em = T.cur_em; T.in_slot = sid; T.cur_em = ei; T.depth++;
        if (T.depth > 1) sim::probe("nested-emission");
        for (int i = 0; i < W->nem; ++i) if (!W->em[i].done && W->em[i].sig == W->em[ei].sig && W->em[i].tid != sim::self() && W->em[i].b) { sim::probe("concurrent-emissions-same-signal"); break; }
        check_current(sid, "slot start");
        const std::vector<Op>& sc = W->script[W->slot[sid].script];
        if (T.depth <= 3) for (size_t k = 0; k < sc.size() && !thr; ++k) {
            if (W->ops_left <= 0) break;
            if (sc[k].k == O_THROW) { W->ops_left--; thr = ++W->uid; W->any_throw = true; sim::fault_fired("slot-throws"); rec(E_THROW, sid, thr, eid); break; }
            if (sc[k].k == O_STOP) { W->ops_left--; I.stopped = true; W->em[ei].stopped = W->em[ei].stopped; W->any_stop = true; rec(E_STOP, sid, eid); sim::fault_fired("emission-stopped"); { SutScope s; kl::this_signal::stop_emission(); } continue; }
            try { exec(sc[k]); } catch (const TestEx& x) { thr = x.uid; }
            check_current(sid, "after an operation in the slot");
        }
        W->inv[ii].thrown = thr; if (thr && W->em[ei].implicit) W->em[eid].thrown = thr;
        T.in_slot = save_slot; T.cur_em = save_em; T.depth--;
        { int hs = sim::harness_suspend(); sim::yield_point(2); sim::harness_resume(hs); }
        if (W->term_inv == ii) sim::park_forever();
        W->inv[ii].e = rec(E_INV_E, sid, eid, thr);
    }
    if (thr) throw TestEx{thr};
}

// ------------------------------------------------------------------------------------------ operations
void disc_begin(int sid, uint32_t t) { SlotI& s = W->slot[sid]; if (!s.disc_b || t < s.disc_b) s.disc_b = t; }
void disc_end(int sid, uint32_t t) { SlotI& s = W->slot[sid]; if (!s.disc_e || t < s.disc_e) s.disc_e = t; }
void href(int sid, int d) { if (sid >= 0) W->slot[sid].handles += d; }

int add_block(int sid, uint32_t cb) { SlotI& s = W->slot[sid]; s.was_blocked = true; if (s.nblk >= 24) sim::finish_ok(); s.blk[s.nblk] = Interval{cb, 0, 0, 0}; return s.nblk++; }

void do_emit(int si, bool swallow)
{
    ThreadCtx& T = me();
    if (!W->sig[si] || W->dead[si] || T.depth >= 3 || W->nem >= kMaxEm - 8) return;
    int ei = new_em(0, si, false); if (ei < 0) return;
    Em* E = &W->em[ei]; T.cur_em = T.cur_em; W->inflight++;
    E->b = rec(E_EMIT_B, si, ei);
    int got = 0;
    int save_slot = T.in_slot; // the current connection seen by callers below is the slot's own again afterwards
    Acc acc{0};
    try { SutScope s; (*W->sig[si])(ei, Payload(1000 + ei, ei), acc); }
    catch (const TestEx& x) { got = x.uid; }
    catch (const std::bad_alloc&) { sim::violation("S07", "unexpected-exception", "an emission without injected allocation failure throws bad_alloc"); }
    catch (...) { sim::violation("S07", "unexpected-exception", "an emission throws an exception no slot threw"); }
    T.in_slot = save_slot;
    E->e = rec(E_EMIT_E, si, ei, got); E->got = got; W->inflight--;
    { int calls = 0; for (int j = E->inv0; j < W->ninv; ++j) if (W->em[W->inv[j].em].eid == ei) calls++; if (calls != acc.n) VTAG("S01", -1, "reference-argument", "%d slots ran in an emission of signal %d but the object passed to them by reference saw %d of them", calls, si, acc.n); }
    // forwarded emissions that belong to this one
    bool cut = got != 0; int n0 = W->nem;
    for (int j = E->inv0; j < W->ninv; ++j) if (W->em[W->inv[j].em].eid == ei && (W->inv[j].stopped || W->inv[j].thrown)) cut = true;
    for (int i = 0; i < n0; ++i) { Em& F = W->em[i]; if (F.implicit && F.eid == ei && !F.done) { F.e = E->e; F.thrown = got ? got : F.thrown; check_emission_end(i); F.done = true; } }
    if (!cut) for (int k = 0; k < W->nslots; ++k) { SlotI& S = W->slot[k]; if (!S.forward || S.sig != si || !S.ce || S.ce > E->b || (S.disc_b && S.disc_b < E->e)) continue; bool have = false; for (int i = 0; i < n0; ++i) if (W->em[i].implicit && W->em[i].eid == ei && W->em[i].sig == S.fwd_to) have = true; if (!have) { int x = new_em(ei, S.fwd_to, true); if (x < 0) break; W->em[x].b = E->b; W->em[x].e = E->e; W->em[x].inv0 = W->ninv; check_emission_end(x); W->em[x].done = true; } }
    check_emission_end(ei);
    W->em[ei].done = true;
    if (got && !swallow && T.depth > 0) throw TestEx{got};
}

int new_slot(int si, bool front, int script, int dtor, int form)
{
    if (W->nslots >= kMaxSlots) return -1;
    int sid = W->nslots++; SlotI& s = W->slot[sid]; memset(&s, 0, sizeof s);
    s.sig = si; s.front = front; s.script = script; s.dtor = dtor; s.form = form; s.fwd_to = -1; s.creator = sim::self(); s.phase = W->phase; W->keep.resize(W->nslots); return sid;
}
// returns the connection
int do_connect(int si, bool front, int script, int form, int dtor, uint32_t fault, bool sticky, kl::connection& out, int inner_target)
{
    if (!W->sig[si] || W->dead[si]) return -1;
    int sid = new_slot(si, front, script, dtor, form); if (sid < 0) return -1;
    W->slot[sid].cb = rec(E_CONNECT_B, sid, si, front, form);
    if (W->discall[si]) disc_begin(sid, W->slot[sid].cb); // a running disconnect_all_slots may or may not take it along
    auto at = front ? kl::at_front : kl::at_back;
    Sig& S = *W->sig[si];
    bool bad = false; int fired = 0;
    {
        SutScope sc;
        kl::connection res;
        try {
            switch (form) {
            default: case 0: {
                Callable c(sid);
                if (inner_target >= 0) { c.t.inner = new kl::scoped_connection(out); } // `out` designates inner_target on entry
                if (fault) sim::arm_alloc(fault, sticky);
                res = S.connect(std::move(c), at); break; }
            case 1: if (front) { if (fault) sim::arm_alloc(fault, sticky); res = S.connect(Callable(sid), kl::at_front); } else { if (fault) sim::arm_alloc(fault, sticky); res = (S += Sig::slot_type(Callable(sid))); } break;
            case 2: { std::shared_ptr<Receiver> r; { HarnessScope h; } r = std::make_shared<Receiver>(sid); { HarnessScope h; W->keep[sid] = r; } if (fault) sim::arm_alloc(fault, sticky); res = S.connect(&Receiver::on, r.get(), at); break; }
            case 3: { auto r = std::make_shared<Receiver>(sid); { HarnessScope h; W->keep[sid] = r; } if (fault) sim::arm_alloc(fault, sticky); res = S.connect(&Receiver::con, static_cast<const Receiver&>(*r), at); break; }
            case 4: { auto r = std::make_shared<Receiver>(sid); if (fault) sim::arm_alloc(fault, sticky); res = S.connect(&Receiver::on, r, at); break; }
            case 5: { auto r = std::make_shared<Receiver>(sid); { HarnessScope h; W->keep[sid] = r; } if (fault) sim::arm_alloc(fault, sticky); res = S.connect(&Receiver::on, std::weak_ptr<Receiver>(r), at); break; }
            case 6: { auto r = std::make_shared<Receiver>(sid); if (fault) sim::arm_alloc(fault, sticky); res = S.connect(&Receiver::con, std::shared_ptr<const Receiver>(r), at); break; }
            case 7: { auto r = std::make_shared<Receiver>(sid); { HarnessScope h; W->keep[sid] = r; } if (fault) sim::arm_alloc(fault, sticky); res = S.connect(&Receiver::con, std::weak_ptr<const Receiver>(r), at); break; }
            case 8: { auto r = std::make_shared<Receiver>(sid); { HarnessScope h; W->keep[sid] = r; } if (fault) sim::arm_alloc(fault, sticky); res = S.connect(&Receiver::on, *r, at); break; }
            case 9: { auto r = std::make_shared<Receiver>(sid); { HarnessScope h; W->keep[sid] = r; } if (fault) sim::arm_alloc(fault, sticky); res = S.connect(&Receiver::con, static_cast<const Receiver*>(r.get()), at); break; }
            case 10: if (fault) sim::arm_alloc(fault, sticky); res = S.connect(SmallCallable{sid}, at); break;
            }
        } catch (const std::bad_alloc&) { bad = true; }
        fired = sim::disarm_alloc();
        swap(out, res);
    }
    SlotI& s = W->slot[sid];
    if (bad) {
        if (!fired) sim::violation("S07", "unexpected-exception", "connect throws bad_alloc although no allocation failed");
        W->any_fault = true; s.failed = true; { auto k = std::move(W->keep[sid]); W->keep[sid].reset(); SutScope sc; k.reset(); }
        s.ce = rec(E_CONNECT_FAIL, sid, si); sim::probe("connect-failed");
        if (s.live != 0) sim::violation("S07,S04", "failed-connect-leak", "the callable of a failed connect is still alive");
        return -1;
    }
    if (fired) sim::violation("S07", "swallowed-alloc-failure", "an allocation failed inside connect but no error was reported");
    s.ce = rec(E_CONNECT_E, sid, si);
    size_t h; bool conn; { SutScope sc; h = out.hash(); conn = out.connected(); }
    if (s.hash && s.hash != h) VTAG("S06", -1, "current-wrong", "the current connection seen inside %s differs from the one connect returned", nm(sid));
    s.hash = h;
    if (!conn && !s.disc_b) VTAG("S02", -1, "not-connected", "%s is not connected after connect returned", nm(sid));
    if ((form == 2 || form == 3 || form == 5 || form == 7 || form == 8 || form == 9)) { } // receiver owned by keep
    return sid;
}
void disconnect_conn(Conn& c)
{
    int sid = c.sid; uint32_t b = rec(E_DISC_B, sid);
    if (sid >= 0) { disc_begin(sid, b); for (int i = 0; i < W->nem; ++i) if (!W->em[i].done && W->em[i].b && W->em[i].sig == W->slot[sid].sig) { sim::probe("disconnect-during-emission"); if (W->em[i].tid != sim::self()) sim::probe("disconnect-during-other-threads-emission"); break; } }
    { SutScope s; c.c.disconnect(); }
    uint32_t e = rec(E_DISC_E, sid);
    if (sid >= 0) { disc_end(sid, e); href(sid, -1); c.sid = -1; }
    bool con; { SutScope s; con = c.c.connected(); }
    if (con) sim::violation("S02,S09", "connected-after-disconnect", "a handle reports connected right after it was disconnected");
}
void check_connected(const kl::connection& c, int sid)
{
    uint32_t qb = rec(E_CONN_Q, sid); bool con; { SutScope s; con = c.connected(); } uint32_t qe = rec(E_CONN_Q, sid, con ? 1 : 0);
    if (sid < 0) { if (con) sim::violation("S09", "empty-connected", "an empty handle reports connected"); return; }
    SlotI& s = W->slot[sid];
    if (con && s.disc_e && s.disc_e < qb) VTAG("S02", sid, "connected-again", "a handle to %s reports connected after its disconnection returned", nm(sid));
    if (!con && !(s.disc_b && s.disc_b < qe)) VTAG("S02,S09", sid, "disconnected-alone", "a handle to %s reports disconnected although nobody disconnected it", nm(sid));
}
void set_conn(Conn& c, int sid) { href(c.sid, -1); c.sid = sid; href(sid, 1); }
void check_count(int si)
{
    if (!W->sig[si] || W->dead[si]) return;
    uint32_t qb = rec(E_COUNT_B, si); size_t n; bool em; 
    { SutScope s; n = W->sig[si]->num_slots(); }
    uint32_t qe = rec(E_COUNT_E, si, (int)n);
    size_t lo = 0, hi = 0;
    for (int k = 0; k < W->nslots; ++k) { SlotI& s = W->slot[k]; if (s.sig != si) continue; if (s.failed && s.ce < qb) continue;
        if (!s.failed && s.ce && s.ce < qb && !(s.disc_b && s.disc_b < qe)) lo++;
        if (s.cb && s.cb < qe && !(s.disc_e && s.disc_e < qb)) hi++; }
    int bs = -1; for (int k = 0; k < W->nslots; ++k) if (W->slot[k].sig == si && W->slot[k].was_blocked && !W->slot[k].failed && !W->slot[k].disc_b) bs = k; // blocked slots stay counted
    if (n < lo || n > hi) VTAG("S02", n < lo ? bs : -1, "count", "signal %d reports %zu connected slots, between %zu and %zu are connected", si, n, lo, hi);
    { SutScope s; em = W->sig[si]->empty(); }
    uint32_t qe2 = rec(E_COUNT_E, si, em ? -1 : -2); size_t lo2 = 0, hi2 = 0;
    for (int k = 0; k < W->nslots; ++k) { SlotI& s = W->slot[k]; if (s.sig != si || (s.failed && s.ce < qe)) continue; if (!s.failed && s.ce && s.ce < qe && !(s.disc_b && s.disc_b < qe2)) lo2++; if (s.cb && s.cb < qe2 && !(s.disc_e && s.disc_e < qe)) hi2++; }
    if ((em && lo2 > 0) || (!em && hi2 == 0)) VTAG("S02", em ? bs : -1, "count", "signal %d reports empty=%d with between %zu and %zu slots connected", si, em, lo2, hi2);
}
void do_disc_all(int si)
{
    if (!W->sig[si] || W->dead[si]) return;
    for (int k = 0; k < W->nslots; ++k) if (W->slot[k].forward && W->slot[k].sig == si) return; // forwards stay for good
    uint32_t b = rec(E_ALLDISC_B, si);
    for (int k = 0; k < W->nslots; ++k) if (W->slot[k].sig == si && W->slot[k].cb) disc_begin(k, b);
    if (!W->discall[si]++) W->discall_b[si] = b;
    { SutScope s; W->sig[si]->disconnect_all_slots(); }
    W->discall[si]--;
    uint32_t e = rec(E_ALLDISC_E, si);
    for (int k = 0; k < W->nslots; ++k) { SlotI& s = W->slot[k]; if (s.sig != si || s.failed) continue; if (s.ce && s.ce < b) disc_end(k, e); else if (s.cb < e) { if (s.cb > b) disc_begin(k, s.cb); } }
}
void begin_unblock(int sid, int iv) { if (sid >= 0) W->slot[sid].blk[iv].db = rec(E_UNBLOCK_B, sid); }
void end_unblock(int sid, int iv) { if (sid >= 0) W->slot[sid].blk[iv].de = rec(E_UNBLOCK_E, sid); }
void kill_blk(Blk*& b)
{
    if (!b) return;
    Blk* x = b; b = nullptr;
    begin_unblock(x->sid, x->iv); { SutScope s; x->b.~blocker(); new (&x->b) kl::connection::blocker(); } end_unblock(x->sid, x->iv);
    href(x->sid, -1); delete x;
}
void scoped_reset(Scoped& s) // destroy and recreate empty
{
    int sid = s.sid; if (sid >= 0) { uint32_t b = rec(E_DISC_B, sid); disc_begin(sid, b); }
    { SutScope x; s.s.~scoped_connection(); new (&s.s) kl::scoped_connection(); }
    if (sid >= 0) { disc_end(sid, rec(E_DISC_E, sid)); href(sid, -1); s.sid = -1; }
}
void check_eq(bool got, bool want, const char* what) { if (got != want) sim::violation("S09", "handle-relation", "%s is %d, expected %d", what, got, want); }

void handle_op(const Op& op)
{
    ThreadCtx& T = me(); Conn &x = T.h().conn[op.a % kConns], &y = T.h().conn[op.b % kConns];
    Scoped &p = T.h().sc[op.a % kScoped], &q = T.h().sc[op.b % kScoped];
    rec(E_HANDLE, op.c, op.a, op.b);
    switch (op.c % 12) {
    case 0: { SutScope s; x.c = y.c; } set_conn(x, y.sid); break;                               // copy-assign (maybe self)
    case 1: if (&x == &y) { { SutScope s; kl::connection& r = x.c; x.c = std::move(r); } check_connected(x.c, x.sid); } else { { SutScope s; x.c = std::move(y.c); } int ys = y.sid, xs = x.sid; (void)xs; { SutScope s; y.c = kl::connection{}; kl::connection e; y.c = e; } href(x.sid, -1); x.sid = ys; y.sid = -1; } break; // move-assign, then reset the source
    case 2: { { SutScope s; swap(x.c, y.c); } std::swap(x.sid, y.sid); break; }
    case 3: { int ys = y.sid; kl::connection* t; { SutScope s; t = new kl::connection(std::move(y.c)); } bool emp, con2; { SutScope s; emp = (y.c == kl::connection{}); con2 = y.c.connected(); } if (!emp || con2) sim::violation("S09", "moved-not-empty", "a moved-from handle is not empty"); { SutScope s; y.c = std::move(*t); delete t; } (void)ys; break; }
    case 4: { bool eq, lt, gt; size_t hx, hy; { SutScope s; eq = x.c == y.c; lt = x.c < y.c; gt = y.c < x.c; hx = std::hash<kl::connection>{}(x.c); hy = std::hash<kl::connection>{}(y.c); }
        check_eq(eq, x.sid == y.sid, "equality of two handles"); check_eq(!lt && !gt, x.sid == y.sid, "equivalence of two handles"); if (lt && gt) sim::violation("S09", "handle-relation", "ordering of handles is not antisymmetric"); if (eq && hx != hy) sim::violation("S09", "handle-relation", "equal handles hash differently");
        break; }
    case 5: { kl::connection* t; { SutScope s; t = new kl::connection(x.c); } check_connected(*t, x.sid); { bool eq; { SutScope s; eq = (*t == x.c) && t->hash() == x.c.hash(); } check_eq(eq, true, "equality of a copy"); } { SutScope s; delete t; } break; }
    case 6: // connection -> scoped (takes ownership)
        if (p.sid < 0 && x.sid >= 0 && !W->slot[x.sid].forward) { { SutScope s; kl::scoped_connection t(std::move(x.c)); swap(p.s, t); } p.sid = x.sid; x.sid = -1; { SutScope s; x.c = kl::connection{}; } } break;
    case 7: // release
        if (p.sid >= 0) { kl::connection* t; { SutScope s; t = new kl::connection(p.s.release()); } bool emp; { SutScope s; emp = p.s.get() == kl::connection{}; } if (!emp) sim::violation("S09", "release", "a released scoped handle is not empty"); check_connected(*t, p.sid); { SutScope s; x.c = *t; delete t; } set_conn(x, p.sid); href(p.sid, -1); p.sid = -1; } break;
    case 8: if (&p != &q) { { SutScope s; swap(p.s, q.s); } std::swap(p.sid, q.sid); } break;
    case 9: if (&p == &q) { { SutScope s; kl::scoped_connection& r = p.s; p.s = std::move(r); } if (p.sid >= 0) check_connected(p.s.get(), p.sid); } else { // scoped move-assign: p takes q's slot; p's former slot ends at the latest when q is destroyed
        int ps = p.sid, qs = q.sid; uint32_t b = rec(E_DISC_B, ps); if (ps >= 0) disc_begin(ps, b);
        { SutScope s; p.s = std::move(q.s); }
        p.sid = qs; q.sid = -1;
        { SutScope s; q.s.~scoped_connection(); new (&q.s) kl::scoped_connection(); }
        if (ps >= 0) { disc_end(ps, rec(E_DISC_E, ps)); href(ps, -1); }
        if (qs >= 0) { kl::connection* t; { SutScope s; t = new kl::connection(p.s.get()); } check_connected(*t, qs); { SutScope s; delete t; } }
        break; }
        break;
    case 10: { // scoped move-construct and back
        int ps = p.sid; kl::scoped_connection* t; { SutScope s; t = new kl::scoped_connection(std::move(p.s)); } bool emp; { SutScope s; emp = p.s.get() == kl::connection{}; p.s.~scoped_connection(); new (&p.s) kl::scoped_connection(); } if (!emp) sim::violation("S09", "moved-not-empty", "a moved-from scoped handle is not empty");
        if (ps >= 0) check_connected(t->get(), ps);
        { SutScope s; swap(p.s, *t); delete t; } break; }
    case 11: { bool eq, lt, gt; size_t h1, h2; { SutScope s; eq = p.s == q.s; lt = p.s < q.s; gt = q.s < p.s; h1 = std::hash<kl::scoped_connection>{}(p.s); h2 = std::hash<kl::connection>{}(p.s.get()); } check_eq(eq, p.sid == q.sid, "equality of scoped handles"); check_eq(!lt && !gt, p.sid == q.sid, "equivalence of scoped handles"); if (h1 != h2) sim::violation("S09", "handle-relation", "a scoped handle hashes unlike its connection"); break; }
    }
}
void blocker_op(const Op& op)
{
    ThreadCtx& T = me(); Blk *&x = T.h().blk[op.a % kBlk], *&y = T.h().blk[op.b % kBlk];
    rec(E_HANDLE, 100 + op.c, op.a, op.b);
    switch (op.c % 6) {
    case 0: // copy-construct
        if (x && !y) { uint32_t b = rec(E_BLOCK_B, x->sid); Blk* n = new Blk; n->sid = x->sid; if (n->sid >= 0) n->iv = add_block(n->sid, b); { SutScope s; n->b.~blocker(); new (&n->b) kl::connection::blocker(x->b); } uint32_t e = rec(E_BLOCK_E, n->sid); if (n->sid >= 0) W->slot[n->sid].blk[n->iv].ce = e; href(n->sid, 1); y = n; } break;
    case 1: // move-construct
        if (x && !y) { Blk* n = new Blk; n->sid = x->sid; n->iv = x->iv; { SutScope s; n->b.~blocker(); new (&n->b) kl::connection::blocker(std::move(x->b)); } bool bl; { SutScope s; bl = x->b.blocking(); } if (bl) sim::violation("S03,S09", "moved-blocker", "a moved-from blocker still reports blocking"); x->sid = -1; x->iv = -1; y = n; delete x; x = nullptr; } break;
    case 2: // copy-assign
        if (x && y && x != y) { int os = y->sid, oi = y->iv; begin_unblock(os, oi); uint32_t b = rec(E_BLOCK_B, x->sid); int ni = x->sid >= 0 ? add_block(x->sid, b) : -1; { SutScope s; y->b = x->b; } uint32_t e = rec(E_BLOCK_E, x->sid); if (ni >= 0) W->slot[x->sid].blk[ni].ce = e; end_unblock(os, oi); href(os, -1); y->sid = x->sid; y->iv = ni; href(y->sid, 1); }
        else if (x && x == y) { SutScope s; kl::connection::blocker& r = x->b; x->b = r; }
        break;
    case 3: // move-assign, then destroy the source
        if (x && y && x != y) { int os = y->sid, oi = y->iv; begin_unblock(os, oi); { SutScope s; y->b = std::move(x->b); x->b.~blocker(); new (&x->b) kl::connection::blocker(); } end_unblock(os, oi); href(os, -1); y->sid = x->sid; y->iv = x->iv; x->sid = -1; x->iv = -1; delete x; x = nullptr; }
        else if (x && x == y) { { SutScope s; kl::connection::blocker& r = x->b; x->b = std::move(r); } bool bl; { SutScope s; bl = x->b.blocking(); } if (bl != (x->sid >= 0)) sim::violation("S03,S09", "blocking-report", "a blocker assigned from itself reports blocking=%d, expected %d", bl, x->sid >= 0); }
        break;
    case 4: if (x && y && x != y) { { SutScope s; swap(x->b, y->b); } std::swap(x->sid, y->sid); std::swap(x->iv, y->iv); } break;
    case 5: if (x) { bool bl; { SutScope s; bl = x->b.blocking(); } if (bl != (x->sid >= 0)) sim::violation("S03,S09", "blocking-report", "a blocker reports blocking=%d, expected %d", bl, x->sid >= 0); } break;
    }
}
void move_model(int from, int to) { for (int k = 0; k < W->nslots; ++k) if (W->slot[k].sig == from) { W->slot[k].sig = to; W->slot[k].ever_moved = true; } }
bool has_forward() { for (int k = 0; k < W->nslots; ++k) if (W->slot[k].forward) return true; return false; }
bool quiescent() { for (int i = 0; i < W->nem; ++i) if (!W->em[i].done) return false; return true; }

void do_move(const Op& op) // main thread, quiescent
{
    if (has_forward() || sim::self() != 0 || !quiescent()) return;
    int i = op.a % W->nsig, j = op.b % W->nsig; if (W->dead[i] || W->dead[j]) return;
    rec(E_MOVE, op.c % 3, i, j); W->any_move = true;
    switch (op.c % 3) {
    case 0: { Sig* old = W->sig[i]; Sig* n; { SutScope s; n = new Sig(std::move(*old)); } W->sig[i] = n; size_t c; { SutScope s; c = old->num_slots(); } if (c) sim::violation("S08", "left-behind", "%zu slots are still attached to a moved-from signal", c); sim::probe("move-construct"); { SutScope s; delete old; } for (int k = 0; k < W->nslots; ++k) if (W->slot[k].sig == i) W->slot[k].ever_moved = true; break; }
    case 1: if (i == j) { SutScope s; Sig& r = *W->sig[i]; *W->sig[i] = std::move(r); } else { { SutScope s; *W->sig[i] = std::move(*W->sig[j]); } move_model(i, 1000); move_model(j, i); move_model(1000, j); sim::probe("move-assign"); } break;
    case 2: if (i != j) { { SutScope s; swap(*W->sig[i], *W->sig[j]); } move_model(i, 1000); move_model(j, i); move_model(1000, j); sim::probe("swap"); } else { SutScope s; swap(*W->sig[i], *W->sig[j]); } break;
    }
    check_count(i); check_count(j);
    for (int t = 0; t < kConns; ++t) check_connected(me().hs[0].conn[t].c, me().hs[0].conn[t].sid);
}
void do_term(const Op& op) // moving or swapping a signal that is being emitted must terminate
{
    int si = -1, ti = -1; for (int i = 0; i < W->nem; ++i) { if (W->em[i].done || W->em[i].implicit) continue; bool inside = false; int ij = -1; for (int j = W->em[i].inv0; j < W->ninv && !inside; ++j) if (W->inv[j].em == i && !W->inv[j].e) { inside = true; ij = j; } if (inside) { si = W->em[i].sig; ti = ij; if ((op.a & 1) == 0) break; } }
    if (si < 0 || W->term_inv >= 0 || has_forward()) return;
    int other = -1; for (int k = 0; k < W->nsig; ++k) if (k != si && !W->dead[k]) other = k;
    W->term_inv = ti; // the slot of that emission does not return until the outcome is known, so the signal is being emitted throughout
    rec(E_TERM_B, si, op.b % 5); sim::fault_fired("move-while-emitting");
    sim::nontrivial(); sim::mix(0x7e7 + op.b % 5);
    sim::expect_terminate(true);
    { SutScope s;
      switch (op.b % 5) {
      case 0: { Sig* n = new Sig(std::move(*W->sig[si])); (void)n; break; }
      case 1: if (other >= 0) { *W->sig[other] = std::move(*W->sig[si]); } else { Sig* n = new Sig(); *n = std::move(*W->sig[si]); } break;
      case 2: if (other >= 0) { *W->sig[si] = std::move(*W->sig[other]); } else { Sig* n = new Sig(); *W->sig[si] = std::move(*n); } break;
      case 3: if (other >= 0) swap(*W->sig[si], *W->sig[other]); else { Sig* n = new Sig(); swap(*W->sig[si], *n); } break;
      case 4: if (other >= 0) swap(*W->sig[other], *W->sig[si]); else { Sig* n = new Sig(); swap(*n, *W->sig[si]); } break;
      } }
    sim::expect_terminate(false);
    sim::violation("S08", "no-termination", "a signal being emitted was moved or swapped and the process continued");
}
void run_dtor_ops(int sid)
{
    HarnessScope h; ThreadCtx& T = me();
    if (W->slot[sid].dtor_ran || !W->allow_dtor_ops || W->slot[sid].dtor <= 0 || T.in_dtor) return;
    W->slot[sid].dtor_ran = true; T.in_dtor++;
    const std::vector<Op>& sc = W->dtor_script[W->slot[sid].dtor % 4];
    for (const Op& op : sc) { if (W->ops_left <= 0) break; W->any_dtorop = true; rec(E_DTOR_OP, sid, op.k); sim::probe("operation-from-callable-destructor"); try { exec(op); } catch (const TestEx&) {} }
    T.in_dtor--;
}

void exec(const Op& op)
{
    if (W->ops_left-- <= 0) return;
    ThreadCtx& T = me();
    int si = op.a % W->nsig;
    { int hs = sim::harness_suspend(); sim::yield_point(0); sim::harness_resume(hs); }
    switch (op.k) {
    case O_EMIT: do_emit(si, op.c & 1); break;
    case O_CONNECT: {
        Conn& slot = T.h().conn[(op.b >> 4) % kConns];
        kl::connection* out; { SutScope s; out = new kl::connection(); }
        int form = op.c % 16; if (form >= 11) form = 0;
        uint32_t fault = 0; bool sticky = false; if ((prop_is("S07") || prop_is("S04")) && (op.c >> 4) % 3 == 0) { fault = sim::choose(FAULT, 4); sticky = fault && sim::chance(FAULT, 1, 3); }
        int inner = -1; if (form == 0 && (op.c >> 6) % 4 == 1 && slot.sid >= 0 && !W->slot[slot.sid].forward && W->slot[slot.sid].dtor <= 0) { inner = slot.sid; SutScope s; *out = slot.c; }
        if (inner >= 0) { // the new callable owns a scoped handle to `inner`: its destruction disconnects it at an unknown moment
            sim::probe("callable-owns-scoped-connection"); disc_begin(inner, sim::now() + 1); W->slot[inner].handles += 1000; }
        int sid = do_connect(si, (op.b & 3) == 3, (op.b >> 2) % kScripts, form, W->allow_dtor_ops && (op.c >> 8) % 3 == 0 ? (op.c >> 10) % 4 : 0, fault, sticky, *out, inner);
        if (sid >= 0) { { SutScope s; slot.c = *out; } set_conn(slot, sid); }
        { SutScope s; delete out; }
        break; }
    case O_DISC: { Conn& c = T.h().conn[op.a % kConns]; if (c.sid >= 0 && W->slot[c.sid].forward) break; disconnect_conn(c); break; }
    case O_BLOCK: { Conn& c = T.h().conn[op.a % kConns]; Blk*& b = T.h().blk[op.b % kBlk]; if (b || (c.sid >= 0 && W->slot[c.sid].forward)) break; uint32_t t = rec(E_BLOCK_B, c.sid); Blk* n = new Blk; n->sid = c.sid; if (c.sid >= 0) n->iv = add_block(c.sid, t); { SutScope s; n->b.~blocker(); if (op.c & 1) new (&n->b) kl::connection::blocker(c.c); else new (&n->b) kl::connection::blocker(c.c.get_blocker()); } uint32_t e = rec(E_BLOCK_E, c.sid); if (n->iv >= 0) W->slot[c.sid].blk[n->iv].ce = e; href(c.sid, 1); b = n; sim::probe("blocked"); break; }
    case O_UNBLOCK: kill_blk(T.h().blk[op.a % kBlk]); break;
    case O_COUNT: check_count(si); break;
    case O_CONNQ: check_connected(T.h().conn[op.a % kConns].c, T.h().conn[op.a % kConns].sid); break;
    case O_DISCALL: do_disc_all(si); break;
    case O_SCOPED: if (op.c & 1) scoped_reset(T.h().sc[op.a % kScoped]); else handle_op(Op{O_HANDLE, op.a, op.b, 6}); break;
    case O_STOP: if (T.depth == 0 && !T.in_dtor) { rec(E_STOP, -1, -1); W->any_stop = true; SutScope s; kl::this_signal::stop_emission(); } break; // in slots: handled by body()
    case O_THROW: break;
    case O_SELFDISC: if (T.in_slot >= 0 && !T.in_dtor && !W->slot[T.in_slot].forward) { Conn tmp; tmp.sid = T.in_slot; href(tmp.sid, 1); { SutScope s; tmp.c = kl::this_signal::current_connection(); } sim::probe("self-disconnect"); disconnect_conn(tmp); } break;
    case O_CURSAVE: if (T.in_slot >= 0 && !T.in_dtor) { Conn& c = T.h().conn[op.a % kConns]; { SutScope s; c.c = kl::this_signal::current_connection(); } set_conn(c, T.in_slot); } else if (T.depth == 0 && !T.in_dtor) check_current(-1, "top level"); break;
    case O_HANDLE: handle_op(op); break;
    case O_BLKOP: blocker_op(op); break;
    case O_YIELD: { int hs = sim::harness_suspend(); sim::yield_point(5); sim::harness_resume(hs); } break;
    case O_EXPIRE: if (W->nslots) { int k = op.a % W->nslots; SlotI& s = W->slot[k]; if ((s.form == 5 || s.form == 7) && W->keep[k] && !s.failed && s.ce && (s.phase < W->phase || s.creator == sim::self())) { s.expired = rec(E_EXPIRE, k); auto keep = std::move(W->keep[k]); W->keep[k].reset(); s.dtor_ran = true; SutScope x; keep.reset(); } } break;
    case O_MOVE: do_move(op); break;
    case O_TERM: if (prop_is("S08") && T.depth > 0 && !T.in_dtor) do_term(op); break;
    default: break;
    }
    if (T.depth == 0 && !T.in_dtor) check_current(-1, "after an operation");
}

void thread_main(void*)
{
    HarnessScope h; int t = sim::self();
    for (const Op& op : W->prog[t]) { if (W->ops_left <= 0) break; try { exec(op); } catch (const TestEx&) {} }
}

// ------------------------------------------------------------------------------------------ program generation
struct Weights { int w[O_N]; };
Weights weights(const char* p, bool in_slot, bool dtor)
{
    Weights x; memset(&x, 0, sizeof x); int* w = x.w;
    w[O_EMIT] = 8; w[O_CONNECT] = 6; w[O_DISC] = 6; w[O_BLOCK] = 2; w[O_UNBLOCK] = 2; w[O_COUNT] = 2; w[O_CONNQ] = 2; w[O_DISCALL] = 1; w[O_SCOPED] = 2; w[O_HANDLE] = 2; w[O_BLKOP] = 1; w[O_YIELD] = 1; w[O_EXPIRE] = 1;
    if (in_slot) { w[O_STOP] = 1; w[O_THROW] = 1; w[O_SELFDISC] = 3; w[O_CURSAVE] = 2; w[O_EMIT] = 4; w[O_YIELD] = 4; } else { w[O_STOP] = 1; w[O_CURSAVE] = 1; }
    if (!strcmp(p, "S02")) { w[O_DISC] = 10; w[O_COUNT] = 6; w[O_CONNQ] = 6; w[O_SCOPED] = 4; w[O_DISCALL] = 2; }
    if (!strcmp(p, "S03")) { w[O_BLOCK] = 9; w[O_UNBLOCK] = 7; w[O_BLKOP] = 7; w[O_HANDLE] = 1; w[O_THROW] = 0; w[O_COUNT] = 3; }
    if (!strcmp(p, "S04")) { w[O_DISC] = 9; w[O_SELFDISC] = in_slot ? 5 : 0; w[O_HANDLE] = 4; w[O_BLKOP] = 3; w[O_BLOCK] = 4; }
    if (!strcmp(p, "S06")) { if (in_slot) { w[O_STOP] = 6; w[O_EMIT] = 8; w[O_THROW] = 2; w[O_CURSAVE] = 5; } w[O_STOP] += 1; w[O_EMIT] = 10; }
    if (!strcmp(p, "S07")) { if (in_slot) { w[O_THROW] = 6; w[O_EMIT] = 6; } w[O_CONNECT] = 9; w[O_EMIT] = 10; }
    if (!strcmp(p, "S08")) { if (in_slot) w[O_TERM] = 3; w[O_COUNT] = 3; w[O_CONNQ] = 3; }
    if (!strcmp(p, "S09")) { w[O_HANDLE] = 16; w[O_SCOPED] = 6; w[O_BLKOP] = 3; w[O_CONNECT] = 8; }
    if (dtor) { w[O_THROW] = w[O_STOP] = w[O_SELFDISC] = w[O_CURSAVE] = w[O_EXPIRE] = w[O_TERM] = 0; w[O_COUNT] = 6; w[O_EMIT] = 4; w[O_DISCALL] = 2; }
    return x;
}
Op gen_op(const Weights& w)
{
    int tot = 0; for (int v : w.w) tot += v;
    int r = (int)choose(PROG, tot), k = 0; while (r >= w.w[k]) { r -= w.w[k]; k++; }
    Op o; o.k = k; o.a = (int)choose(PROG, 64); o.b = (int)choose(PROG, 256); o.c = (int)choose(PROG, 4096); return o;
}

void give(Conn& c) { Conn& src = me().hs[0].conn[choose(PROG, kConns)]; me().in_dtor++; { SutScope s; c.c = src.c; } me().in_dtor--; set_conn(c, src.sid); }

void teardown(bool sigs_first)
{
    if (!sigs_first) for (int i = 0; i < W->nsig; ++i) { W->ops_left = 20; do_emit(i, true); check_count(i); }
    auto kill_sigs = [&] {
        for (int i = 0; i < W->nsig; ++i) if (W->sig[i]) {
            uint32_t b = rec(E_SIGDEL_B, i); for (int k = 0; k < W->nslots; ++k) if (W->slot[k].sig == i && W->slot[k].ce && !W->slot[k].failed) disc_begin(k, b);
            W->dead[i] = true; Sig* s = W->sig[i]; W->sig[i] = nullptr; { SutScope x; delete s; }
            uint32_t e = rec(E_SIGDEL_E, i); for (int k = 0; k < W->nslots; ++k) if (W->slot[k].sig == i && W->slot[k].ce && !W->slot[k].failed) disc_end(k, e);
        } };
    if (sigs_first) { kill_sigs(); for (int t = 0; t < sim::kMaxThreads; ++t) if (W->th[t]) for (HSet& H : W->th[t]->hs) for (Conn& c : H.conn) check_connected(c.c, c.sid); }
    auto drop_handles = [&] {
        for (int t = 0; t < sim::kMaxThreads; ++t) for (int q = 0; q < 2; ++q) { HSet& H = W->th[t]->hs[q]; me().in_dtor += q;
            for (auto& b : H.blk) kill_blk(b);
            for (auto& c : H.conn) { { SutScope s; kl::connection e; c.c = e; } set_conn(c, -1); }
            for (auto& s : H.sc) scoped_reset(s);
            me().in_dtor -= q;
        } };
    drop_handles();
    if (!sigs_first) kill_sigs();
    W->allow_dtor_ops = false; drop_handles(); // operations from destructors may have created new ones
}
void lifetime_check(const char* when) // quiescent: unreferenced disconnected slots must be gone
{
    for (int k = 0; k < W->nslots; ++k) { SlotI& s = W->slot[k]; if (s.forward || s.failed || !s.disc_e || s.handles > 0 || s.form == 10) continue;
        if (s.form == 2 || s.form == 3 || s.form == 5 || s.form == 7 || s.form == 8 || s.form == 9) continue; // receiver not owned by the slot
        if (s.live > 0) sim::violation("S04,S07", "not-destroyed", "the callable of %s, disconnected and without handles, is still alive %s", nm(k), when); }
}

// ------------------------------------------------------------------------------------------ many of one thing (single thread, own signals)
using MSig = kl::signal<void(int)>;
struct MassState { int calls, alive, deep, order_bad, last; bool disc; MSig* sig; kl::connection* conn; int term; };
MassState* M;
struct MassFn { // counts its calls and live instances
    int id; int pad[6];
    explicit MassFn(int i) : id(i) { HarnessScope h; for (int& x : pad) x = i; M->alive++; }
    MassFn(const MassFn& o) : id(o.id) { HarnessScope h; for (int& x : pad) x = id; M->alive++; }
    MassFn(MassFn&& o) noexcept : id(o.id) { HarnessScope h; for (int& x : pad) x = id; M->alive++; }
    ~MassFn() { HarnessScope h; M->alive--; }
    void operator()(int n) const
    {
        for (int x : pad) if (x != id) { HarnessScope h; sim::violation("S04", "destroyed-in-use", "a callable is run after its storage was reused"); }
        if (n >= 0) { { HarnessScope h; M->calls++; if (id <= M->last) M->order_bad++; M->last = id; } return; }
        // n < 0: recurse -n-1 levels; at the deepest one act on the signal
        if (id != 0) { HarnessScope h; M->calls++; return; }
        if (n < -1) { (*M->sig)(n + 1); return; }
        if (M->term) { { HarnessScope h; sim::fault_fired("move-while-emitting"); } sim::expect_terminate(true); MSig other; if (M->term == 1) swap(*M->sig, other); else MSig moved(std::move(*M->sig)); sim::expect_terminate(false); HarnessScope h; sim::violation("S08", "no-termination", "a signal in a deeply nested emission was moved or swapped and the process continued"); }
        kl::connection c = kl::this_signal::current_connection(); c.disconnect();
        HarnessScope h; M->disc = true; if (M->alive < 3) sim::violation("S04", "destroyed-in-use", "the callable of a slot is destroyed while it runs");
    }
};
void mass(int kind)
{
    M = new MassState(); memset((void*)M, 0, sizeof *M); M->last = -1;
    int n = choose(PROG, 24) == 23 ? 65536 + (int)choose(PROG, 3) : 254 + (int)choose(PROG, 6) + (choose(PROG, 4) == 3 ? 256 : 0);
    sim::nontrivial(); sim::mix((uint64_t)kind * 100000 + (uint64_t)n); static char pr[4][24] = {"many-blockers", "many-handles", "deep-nesting", "many-slots"}; sim::probe(pr[kind & 3]);
    auto emit = [&](int v) { M->calls = 0; M->last = -1; SutScope s; (*M->sig)(v); };
    { SutScope s; M->sig = new MSig(); }
    switch (kind) {
    case 0: { // many blockers of one slot
        kl::connection c; kl::connection::blocker* b; { SutScope s; c = M->sig->connect(MassFn(0)); b = new kl::connection::blocker[(size_t)n]; for (int i = 0; i < n; ++i) { if (i && (i & 1)) b[i] = b[i - 1]; else b[i] = c.get_blocker(); } }
        emit(1); if (M->calls) sim::violation("S03", "invoked-blocked", "a slot with %d blockers is invoked", n);
        for (int i = n - 1; i >= 1; --i) { SutScope s; b[i] = kl::connection::blocker(); }
        emit(1); if (M->calls) sim::violation("S03", "invoked-blocked", "a slot is invoked although 1 of %d blockers is left", n);
        { SutScope s; b[0] = kl::connection::blocker(); }
        emit(1); if (M->calls != 1) sim::violation("S03,S01", "missed", "a slot is not invoked although all of its %d blockers are gone", n);
        { SutScope s; delete[] b; c = kl::connection(); } break; }
    case 1: { // many handles to one slot
        kl::connection* c; { SutScope s; c = new kl::connection[(size_t)n]; c[0] = M->sig->connect(MassFn(0)); for (int i = 1; i < n; ++i) c[i] = c[i / 2]; }
        for (int i = n - 1; i >= 1; --i) { SutScope s; c[i] = kl::connection(); }
        if (!M->alive) sim::violation("S04", "destroyed-connected", "the callable of a connected slot is destroyed after %d of its %d handles were", n - 1, n);
        emit(1); if (M->calls != 1) sim::violation("S01,S04", "missed", "a slot is not invoked after %d of its %d handles were destroyed", n - 1, n);
        { SutScope s; for (int i = 1; i < n; ++i) c[i] = c[0]; c[n / 2].disconnect(); }
        bool any = false; { SutScope s; for (int i = 0; i < n; ++i) any |= c[i].connected(); } if (any) sim::violation("S02", "connected-again", "one of %d handles reports connected after the slot was disconnected", n);
        if (!M->alive) sim::violation("S04", "destroyed-referenced", "a slot's callable is destroyed although %d handles refer to it", n - 1);
        { SutScope s; delete[] c; }
        if (M->alive) sim::violation("S04", "not-destroyed", "the callable of a disconnected slot outlives all of its %d handles", n);
        break; }
    case 2: { // deeply nested emissions
        if (n > 1000) n = 255 + n % 3;
        { SutScope s; for (int i = 0; i < 3; ++i) M->sig->connect(MassFn(i)); }
        M->term = !strcmp(W->prop, "S08") && choose(PROG, 2) ? 1 + (int)choose(PROG, 2) : 0;
        emit(-n);
        if (!M->disc) sim::violation("S01", "missed", "a nested emission did not reach the slot at depth %d", n);
        if (M->calls != 2 * n) sim::violation("S01", "missed", "%d nested emissions invoked the two other slots %d times", n, M->calls);
        if (M->alive != 2) sim::violation("S04", "not-destroyed", "%d callables are alive, 2 are connected, after %d nested emissions", M->alive, n);
        emit(1); if (M->calls != 2) sim::violation("S01", "missed", "%d of 2 slots are invoked after %d nested emissions", M->calls, n);
        break; }
    case 3: { // many slots
        if (n > 1000) n = 600;
        kl::connection* c; { SutScope s; c = new kl::connection[(size_t)n]; for (int i = 0; i < n; ++i) c[i] = M->sig->connect(MassFn(i)); }
        emit(1); if (M->calls != n || M->order_bad) sim::violation("S01", "order", "%d of %d slots are invoked, %d out of order", M->calls, n, M->order_bad);
        { SutScope s; for (int i = 0; i < n; i += 3) c[i].disconnect(); for (int i = n - 1; i >= 0; --i) if (i % 3 == 2) c[i].disconnect(); }
        int left = 0; for (int i = 0; i < n; ++i) left += i % 3 == 1;
        emit(1); if (M->calls != left || M->order_bad || M->alive != left) sim::violation("S01,S02,S04", "missed", "%d slots are invoked and %d callables alive, %d of %d are connected", M->calls, M->alive, left, n);
        size_t cnt; { SutScope s; cnt = M->sig->num_slots(); } if ((int)cnt != left) sim::violation("S02", "count", "a signal reports %zu connected slots, %d are", cnt, left);
        { SutScope s; M->sig->disconnect_all_slots(); } emit(1); { SutScope s; cnt = M->sig->num_slots(); } if (M->calls || cnt) sim::violation("S02", "count", "%d slots invoked and %zu reported after all were disconnected", M->calls, cnt);
        { SutScope s; delete[] c; } break; }
    }
    { SutScope s; delete M->sig; }
    if (M->alive) sim::violation("S04", "not-destroyed", "%d callables are alive after their signal was destroyed", M->alive);
    delete M; M = nullptr;
}

// ------------------------------------------------------------------------------------------ threads moving signals into each other while others connect
struct Storm { int n; MSig* sig[4]; std::vector<std::pair<int, int>> prog[sim::kMaxThreads]; std::vector<std::pair<int, int>> hits; int alive, made; };
Storm* ST;
struct StormFn {
    int thread, no; StormFn(int t, int k) : thread(t), no(k) { HarnessScope h; ST->alive++; }
    StormFn(const StormFn& o) : thread(o.thread), no(o.no) { HarnessScope h; ST->alive++; }
    ~StormFn() { HarnessScope h; ST->alive--; }
    void operator()(int) const { HarnessScope h; ST->hits.push_back({thread, no}); }
};
void storm_main(void*)
{
    HarnessScope h; int t = sim::self(), no = 0; kl::connection mine[8];
    for (auto& op : ST->prog[t]) {
        int i = op.second % ST->n, j = op.second / 8 % ST->n;
        { int hs = sim::harness_suspend(); sim::yield_point(0); sim::harness_resume(hs); }
        switch (op.first) {
        case 0: { SutScope s; swap(*ST->sig[i], *ST->sig[j]); break; }
        case 1: if (i != j) { SutScope s; *ST->sig[i] = std::move(*ST->sig[j]); } break;
        case 2: { StormFn f(t, no); { SutScope s; mine[no] = ST->sig[i]->connect(f); } no++; ST->made++; break; }
        case 3: { size_t c; { SutScope s; c = ST->sig[i]->num_slots(); } if (c > 64) sim::violation("S08", "count", "a signal reports %zu slots", c); break; }
        case 4: for (int q = 0; q < no; ++q) { bool k; { SutScope s; k = mine[q].connected(); } if (!k) sim::violation("S08,S02", "lost", "a slot is reported disconnected while signals are only connected to and swapped"); } break;
        }
    }
    SutScope s; for (auto& c : mine) c = kl::connection();
}
void storm()
{
    ST = new Storm(); ST->n = 2 + (int)choose(PROG, 3); ST->alive = ST->made = 0; int nt = 2 + (int)choose(PROG, 3); sim::probe("concurrent-swaps");
    for (int i = 0; i < ST->n; ++i) { SutScope s; ST->sig[i] = new MSig(); }
    for (int i = 0; i < ST->n; ++i) for (uint32_t k = choose(PROG, 3); k--;) { StormFn f(0, ST->made++); SutScope s; ST->sig[i]->connect(f); }
    for (int t = 1; t <= nt; ++t) for (uint32_t k = 1 + choose(PROG, 6); k--;) { int o = (int)choose(PROG, 9); ST->prog[t].push_back({o < 4 ? 0 : o - 4, (int)choose(PROG, 64)}); }
    sim::nontrivial(); for (int t = 1; t <= nt; ++t) sim::spawn(storm_main, nullptr);
    { int hs = sim::harness_suspend(); sim::join_all(); sim::harness_resume(hs); }
    size_t sum = 0; int seen = 0;
    for (int i = 0; i < ST->n; ++i) {
        size_t c; ST->hits.clear(); { SutScope s; c = ST->sig[i]->num_slots(); (*ST->sig[i])(1); } sum += c; seen += (int)ST->hits.size();
        if (c != ST->hits.size()) sim::violation("S08", "count", "signal %d reports %zu slots and invokes %zu after concurrent swaps", i, c, ST->hits.size());
        int last[sim::kMaxThreads]; for (int& x : last) x = -1;
        for (auto& q : ST->hits) { if (q.second <= last[q.first]) sim::violation("S08,S01", "order", "slots that one thread connected in order are invoked out of order after concurrent swaps"); last[q.first] = q.second; }
    }
    if ((int)sum != ST->made || seen != ST->made || ST->alive != ST->made) sim::violation("S08", "lost", "%d slots were connected; after concurrent swaps the signals report %zu, invoke %d, and %d callables are alive", ST->made, sum, seen, ST->alive);
    for (int i = 0; i < ST->n; ++i) { SutScope s; delete ST->sig[i]; }
    if (ST->alive) sim::violation("S04", "not-destroyed", "%d callables are alive after their signals were destroyed", ST->alive);
    delete ST; ST = nullptr;
}

void run(const char* prop)
{
    sim::set_fatal_props("S01,S02,S03,S04,S05,S06,S07,S08,S09"); sim::set_race_props("S01,S02,S03,S04,S05,S06,S07,S08,S09");
    HarnessScope h;
    W = new World(); W->prop = prop;
    for (int i = 0; i < sim::kMaxThreads; ++i) { W->th[i] = new ThreadCtx(); for (auto& q : W->th[i]->hs) memset(q.blk, 0, sizeof q.blk); W->th[i]->depth = 0; W->th[i]->in_slot = -1; W->th[i]->cur_em = -1; W->th[i]->in_dtor = 0; }
    W->nem = 0; W->ops_left = kMaxOps;
    W->nsig = 1 + (int)choose(PROG, kSigs);
    for (int i = 0; i < W->nsig; ++i) { SutScope s; W->sig[i] = new Sig(); }
    if (choose(PROG, 24) == 23) { int kind = prop_is("S03") ? 0 : prop_is("S04") ? (int)choose(PROG, 4) : prop_is("S08") ? 2 : prop_is("S02") ? (choose(PROG, 2) ? 3 : 1) : (int)choose(PROG, 4); mass(kind); }
    if ((prop_is("S05") || prop_is("S08")) && choose(PROG, 10) == 9) storm();
    W->allow_dtor_ops = prop_is("S05") ? true : (choose(PROG, 4) == 3);
    W->fault_args = prop_is("S07") || (choose(PROG, 8) == 7);
    Weights ws = weights(prop, true, false), wt = weights(prop, false, false), wd = weights(prop, true, true);
    // scripts: script 0 is empty
    for (int i = 1; i < kScripts; ++i) { int n = (int)choose(PROG, 4); for (int k = 0; k < n; ++k) W->script[i].push_back(gen_op(ws)); }
    for (int i = 1; i < 4; ++i) { int n = 1 + (int)choose(PROG, 2); for (int k = 0; k < n; ++k) W->dtor_script[i].push_back(gen_op(wd)); }
    // initial slots
    int init = (int)choose(PROG, 6);
    for (int i = 0; i < init; ++i) { Op o{O_CONNECT, (int)choose(PROG, 64), (int)choose(PROG, 256), (int)choose(PROG, 4096)}; o.b = (o.b & 15) | (i << 4); exec(o); }
    if (W->nsig > 1 && !prop_is("S08") && choose(PROG, 5) == 4) { // forward signal 0 -> 1, for good
        int sid = new_slot(0, choose(PROG, 2) == 1, 0, 0, 99); W->slot[sid].forward = true; W->slot[sid].fwd_to = 1; W->slot[sid].cb = rec(E_CONNECT_B, sid, 0, 0, 99);
        { SutScope s; W->sig[0]->connect(*W->sig[1], W->slot[sid].front ? kl::at_front : kl::at_back); } W->slot[sid].ce = rec(E_CONNECT_E, sid, 0); sim::probe("forwarded-signal"); }
    int phases = 1 + (prop_is("S08") ? 1 + (int)choose(PROG, 2) : (int)choose(PROG, 2));
    for (int ph = 0; ph < phases; ++ph) {
        W->phase++;
        int pre = (int)choose(PROG, 5);
        for (int i = 0; i < pre; ++i) { Op o = gen_op(wt); if ((prop_is("S08") || ph > 0) && choose(PROG, 3) == 2) o.k = O_MOVE; try { exec(o); } catch (const TestEx&) {} }
        int nt = (int)choose(PROG, 5); if (nt == 1) nt = 2; // 0,2,2,3,4
        if (nt) {
            for (int t = 1; t <= nt; ++t) { W->prog[t].clear(); int n = 1 + (int)choose(PROG, 6); for (int k = 0; k < n; ++k) W->prog[t].push_back(gen_op(wt));
                for (int c = 0; c < kConns; ++c) for (HSet& H : W->th[t]->hs) if (choose(PROG, 2)) give(H.conn[c]); }
            for (Conn& c : me().hs[1].conn) if (choose(PROG, 2)) give(c);
            W->multi = true; W->phase++; sim::nontrivial();
            for (int t = 1; t <= nt; ++t) { sim::spawn(thread_main, nullptr); }
            if (choose(PROG, 2)) { int n = (int)choose(PROG, 4); for (int i = 0; i < n; ++i) { Op o = gen_op(wt); try { exec(o); } catch (const TestEx&) {} } }
            { int hs = sim::harness_suspend(); sim::join_all(); sim::harness_resume(hs); }
        } else { int n = (int)choose(PROG, 6); for (int i = 0; i < n; ++i) try { exec(gen_op(wt)); } catch (const TestEx&) {} if (W->nem > 1) sim::nontrivial(); }
        for (int i = 0; i < W->nsig; ++i) check_count(i);
        lifetime_check("when nothing is running");
        for (int t = 0; t < sim::kMaxThreads; ++t) for (HSet& H : W->th[t]->hs) for (Conn& c : H.conn) check_connected(c.c, c.sid);
        if (W->ops_left < 25) W->ops_left = 25;
        // a verification emission of every signal
        for (int i = 0; i < W->nsig; ++i) { do_emit(i, true); }
        W->ops_left += 10;
    }
    sim::mix((uint64_t)W->ninv * 1000 + W->nslots);
    teardown(choose(PROG, 2) == 1);
    { auto k = std::move(W->keep); for (int i = 0; i < W->nslots; ++i) if (!W->slot[i].disc_b) W->slot[i].disc_b = 1; for (int i = 0; i < W->nslots; ++i) W->slot[i].dtor_ran = true; SutScope s; k.clear(); }
    for (int k = 0; k < W->nslots; ++k) if (W->slot[k].live != 0) sim::violation("S04,S07", "not-destroyed", "the callable of %s is never destroyed", nm(k));
    sim::leak_check("S04,S07");
}

void describe(const sim::Event& e, char* b, int n)
{
    switch (e.kind) {
    case E_CONNECT_B: snprintf(b, n, "connect slot %d to signal %d %s (form %d, script %d) ...", e.a, e.b, e.c ? "at front" : "at back", e.d, W->slot[e.a].script); break;
    case E_CONNECT_E: snprintf(b, n, "... slot %d connected", e.a); break;
    case E_CONNECT_FAIL: snprintf(b, n, "... connecting slot %d failed (out of memory)", e.a); break;
    case E_DISC_B: snprintf(b, n, "disconnect slot %d ...", e.a); break;
    case E_DISC_E: snprintf(b, n, "... slot %d disconnected", e.a); break;
    case E_EMIT_B: snprintf(b, n, "emit signal %d (emission %d) ...", e.a, e.b); break;
    case E_EMIT_E: snprintf(b, n, "... emission %d of signal %d returned%s", e.b, e.a, e.c ? " by exception" : ""); break;
    case E_INV_B: snprintf(b, n, "  slot %d invoked (emission %d)", e.a, e.b); break;
    case E_INV_E: snprintf(b, n, "  slot %d %s (emission %d)", e.a, e.c ? "throws" : "returns", e.b); break;
    case E_BLOCK_B: snprintf(b, n, "block slot %d ...", e.a); break;
    case E_BLOCK_E: snprintf(b, n, "... slot %d blocked", e.a); break;
    case E_UNBLOCK_B: snprintf(b, n, "destroy a blocker of slot %d ...", e.a); break;
    case E_UNBLOCK_E: snprintf(b, n, "... blocker of slot %d gone", e.a); break;
    case E_STOP: snprintf(b, n, "stop_emission called (slot %d)", e.a); break;
    case E_THROW: snprintf(b, n, "%s throws exception %d", e.a < 0 ? "argument copy" : "slot", e.b); break;
    case E_DESTROYED: snprintf(b, n, "callable of slot %d destroyed", e.a); break;
    case E_ALLDISC_B: snprintf(b, n, "disconnect_all_slots on signal %d ...", e.a); break;
    case E_ALLDISC_E: snprintf(b, n, "... all slots of signal %d disconnected", e.a); break;
    case E_COUNT_E: if (e.b >= 0) snprintf(b, n, "signal %d: num_slots() = %d", e.a, e.b); break;
    case E_MOVE: snprintf(b, n, "%s signals %d and %d", e.a == 0 ? "move-construct" : e.a == 1 ? "move-assign" : "swap", e.b, e.c); break;
    case E_SIGDEL_B: snprintf(b, n, "destroy signal %d ...", e.a); break;
    case E_SIGDEL_E: snprintf(b, n, "... signal %d destroyed", e.a); break;
    case E_EXPIRE: snprintf(b, n, "receiver of slot %d destroyed", e.a); break;
    case E_TERM_B: snprintf(b, n, "move/swap (kind %d) of emitting signal %d", e.b, e.a); break;
    case E_DTOR_OP: snprintf(b, n, "operation %d from the destructor of slot %d's callable", e.b, e.a); break;
    case E_HANDLE: snprintf(b, n, "handle operation %d on %d,%d", e.a, e.b, e.c); break;
    }
}
} // namespace
const sim::Harness sim::harness = {"sig", run, describe};

// Deterministic simulator runtime. NOT instrumented. Uses no std containers (they would share template
// instantiations with the instrumented code). See simrt.h and DESIGN.md.
#include "simrt.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define RT_NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim {

// ------------------------------------------------------------------------------------------------ shared
constexpr u32 kStreamCap = 1 << 16;
constexpr int kCounters = 96;
enum Outcome { RUNNING = 0, OK = 1, VIOL = 2, INTERNAL = 3 };
struct Counter { char name[56]; u32 kind; u64 n; };
struct Shm {
    int outcome;
    char props[64]; char cls[64]; char msg[1400];
    u32 len[kStreams]; u32 data[kStreams][kStreamCap];
    u32 used[kStreams];                 // how many choices the run consumed
    u64 loghash, schedhash, mixhash; int nontriv;
    u64 points, switches, steps, simns, allocs;
    u32 nevents;
    Counter counters[kCounters]; u32 ncounters;
    u64 pcs[24]; u32 npcs;
};
static Shm* g_shm;
static bool g_verbose;
static const char* g_prop = "";

static void copy_str(char* d, const char* s, size_t n) { size_t i = 0; for (; s[i] && i + 1 < n; ++i) d[i] = s[i]; d[i] = 0; }
static bool str_eq(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }

// ------------------------------------------------------------------------------------------------ PRNG
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
             u32 below(u32 n) { return n ? (u32)(next() % n) : 0; } };
static u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// ------------------------------------------------------------------------------------------------ threads
enum TState { UNUSED, RUNNABLE, BLK_LOCK, BLK_COND, BLK_JOIN, DONE };
typedef u32 Clock[kMaxThreads];
struct Thr {
    int id; TState st; int futex; pthread_t h;
    void (*fn)(void*); void* arg;
    const void* wait_on; bool timed; bool timed_out; bool signaled;
    Clock c; Clock acq_pending; bool has_pending; Clock rel_fence; bool has_rel_fence;
    int harness; int in_rt; int prio; u32 streak;
    u32 arm_k; bool arm_sticky; u32 arm_cnt; u32 arm_fired;
    char* stk_lo; char* stk_hi;
    u64 cs[64]; u32 csn;
};
static Thr g_thr[kMaxThreads];
static int g_nthr; static int g_cur;
static __thread Thr* t_self;            // null outside simulated threads
static bool g_active;                   // a run is in progress
static bool g_multi;                    // threads were spawned: race detection on
static int g_mode;                      // 0 generate, 1 replay
static Rng g_rng[kStreams];
static u64 g_loghash, g_schedhash, g_mixhash;
static u64 g_steps, g_points, g_switches, g_budget = 20000000, g_simns;
static char g_fatal_props[64] = "", g_race_props[64] = "";
static bool g_expect_term;

static long fut(int* a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }

// scheduling strategy (generation only)
static struct Strat { int kind; u32 p; u32 npre; u64 pre[8]; int victim; } g_strat;

static void publish()
{
    Shm* s = g_shm;
    s->loghash = g_loghash; s->schedhash = g_schedhash; s->mixhash = g_mixhash;
    s->points = g_points; s->switches = g_switches; s->steps = g_steps; s->simns = g_simns;
}

[[noreturn]] static void vviolation(const char* props, const char* cls, const char* fmt, va_list ap)
{
    Thr* T = t_self; if (T) T->in_rt++;
    g_active = false;
    copy_str(g_shm->props, props, sizeof g_shm->props);
    copy_str(g_shm->cls, cls, sizeof g_shm->cls);
    vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap);
    for (char* c = g_shm->msg; *c; ++c) if (*c < 0x20 || *c >= 0x7f || *c == '"' || *c == '\\') *c = *c == '"' ? '\'' : *c == '\\' ? '/' : '?';
    if (T) { u32 n = T->csn < 64 ? T->csn : 64; g_shm->npcs = 0; for (u32 i = 0; i < n && g_shm->npcs < 24; ++i) g_shm->pcs[g_shm->npcs++] = T->cs[n - 1 - i]; }
    publish();
    g_shm->outcome = VIOL;
    if (g_verbose) { fprintf(stderr, "VIOL props=%s class=%s: %s\n", props, cls, g_shm->msg); }
    _exit(10);
}
void violation(const char* props, const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vviolation(props, cls, fmt, ap); }
[[noreturn]] static void fatal(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vviolation(g_fatal_props, cls, fmt, ap); }
void finish_ok() { g_active = false; publish(); g_shm->outcome = OK; _exit(0); }
void expect_terminate(bool on) { g_expect_term = on; }
void set_fatal_props(const char* p) { copy_str(g_fatal_props, p, sizeof g_fatal_props); }
void set_race_props(const char* p) { copy_str(g_race_props, p, sizeof g_race_props); }
void set_step_budget(u64 n) { g_budget = n; }
bool verbose() { return g_verbose; }
void sim_time(u64 ns) { g_simns += ns; }
void mix(u64 v) { g_mixhash = hmix(g_mixhash, v); }
void nontrivial() { g_shm->nontriv = 1; }

static void count(const char* name, u32 kind)
{
    Shm* s = g_shm;
    for (u32 i = 0; i < s->ncounters; ++i) if (s->counters[i].kind == kind && str_eq(s->counters[i].name, name)) { s->counters[i].n++; return; }
    if (s->ncounters < kCounters) { Counter& c = s->counters[s->ncounters++]; copy_str(c.name, name, sizeof c.name); c.kind = kind; c.n = 1; }
}
void probe(const char* n) { if (t_self) t_self->in_rt++; count(n, 0); if (t_self) t_self->in_rt--; }
void fault_fired(const char* n) { if (t_self) t_self->in_rt++; count(n, 1); g_loghash = hmix(g_loghash, 0xfa17); g_mixhash = hmix(g_mixhash, 0xfa17); if (t_self) t_self->in_rt--; }

// ---- choices
static u32 rec_choice(int s, u32 v)
{
    Shm* m = g_shm; u32 i = m->used[s]++;
    if (i < kStreamCap) { if (g_mode == 0) { m->data[s][i] = v; m->len[s] = i + 1; } }
    return v;
}
static bool replay_choice(int s, u32 n, u32& v)
{
    if (g_mode == 0) return false;
    Shm* m = g_shm; u32 i = m->used[s];
    v = i < m->len[s] ? m->data[s][i] % n : 0;
    return true;
}
u32 choose(Stream s, u32 n)
{
    if (n <= 1) return 0;
    u32 v;
    if (!replay_choice(s, n, v)) v = g_rng[s].below(n);
    rec_choice(s, v);
    g_loghash = hmix(g_loghash, (u64)s << 32 | v);
    return v;
}

// ---- scheduler
static void park(Thr* T) { while (__atomic_load_n(&T->futex, __ATOMIC_ACQUIRE) == 0) fut(&T->futex, FUTEX_WAIT_PRIVATE, 0); __atomic_store_n(&T->futex, 0, __ATOMIC_RELAXED); }
static void unpark(Thr* T) { __atomic_store_n(&T->futex, 1, __ATOMIC_RELEASE); fut(&T->futex, FUTEX_WAKE_PRIVATE, 1); }

static void switch_to(Thr* from, int to, bool wait)
{
    g_switches++; g_schedhash = hmix(g_schedhash, 0x51 + to); g_loghash = hmix(g_loghash, 0x515000 + to);
    g_cur = to; g_thr[to].streak = 0;
    unpark(&g_thr[to]);
    if (wait) park(from);
}
static int collect(int me, int* out)
{
    int n = 0;
    for (int k = 1; k < g_nthr; ++k) { int i = (me + k) % g_nthr; if (g_thr[i].st == RUNNABLE) out[n++] = i; }
    return n;
}
// pick among cand (n>=1). can_stay: value 0 means stay. Returns index into cand, or -1 for stay.
static int pick(int me, const int* cand, int n, bool can_stay, int kind)
{
    u32 opts = n + (can_stay ? 1 : 0);
    if (opts == 1) return can_stay ? -1 : 0;
    u32 v;
    if (!replay_choice(SCHED, opts, v)) {
        Rng& r = g_rng[SCHED]; Strat& st = g_strat;
        bool sw = !can_stay; int target = -1;
        switch (st.kind) {
        default: case 0: if (can_stay) sw = r.below(256) < st.p; break;
        case 1: { // PCT: priorities with change points
            for (u32 i = 0; i < st.npre; ++i) if (st.pre[i] == g_points) { g_thr[me].prio = -(int)i - 1; }
            int best = can_stay ? g_thr[me].prio : INT_MIN; int bi = -1;
            for (int i = 0; i < n; ++i) if (g_thr[cand[i]].prio > best) { best = g_thr[cand[i]].prio; bi = i; }
            sw = bi >= 0 || !can_stay; target = bi < 0 ? 0 : bi; break; }
        case 2: // starve a victim
            if (can_stay) sw = (me == st.victim) ? r.below(4) != 0 : r.below(256) < st.p;
            if (sw && n > 1) { int k = r.below(n); if (cand[k] == st.victim && r.below(8)) k = (k + 1) % n; target = k; }
            else if (sw && n == 1 && can_stay && cand[0] == st.victim && r.below(8)) sw = false;
            break;
        case 3: // few preemptions at random points
            if (can_stay) { sw = false; for (u32 i = 0; i < st.npre; ++i) if (st.pre[i] == g_points) sw = true; }
            break;
        case 4: // only at user-code boundaries
            if (can_stay) sw = (kind >= 100) && r.below(256) < st.p * 2 + 40;
            break;
        }
        if (!sw) v = 0; else { if (target < 0) target = r.below(n); v = target + (can_stay ? 1 : 0); }
    }
    rec_choice(SCHED, v);
    return can_stay ? (int)v - 1 : (int)v;
}
static inline void budget_check()
{
    if (UNLIKELY(++g_steps > g_budget)) { g_steps = 0; fatal("no-progress", "step budget of %llu exceeded: an operation does not finish", (unsigned long long)g_budget); }
}
static void sched_point(int kind)
{
    Thr* T = t_self;
    if (!T || !g_active || T->harness) return;
    g_points++; budget_check();
    g_schedhash = hmix(g_schedhash, (u64)T->id * 256 + (u64)kind);
    if (g_nthr < 2) return;
    int cand[kMaxThreads]; int n = collect(T->id, cand);
    if (!n) return;
    if (++T->streak > 1500) { T->streak = 0; switch_to(T, cand[g_points % n], true); return; } // fairness, deterministic
    int k = pick(T->id, cand, n, true, kind);
    if (k >= 0) switch_to(T, cand[k], true);
}
static void describe_blocked(char* buf, int n)
{
    int o = 0; buf[0] = 0;
    static const char* names[] = {"unused", "runnable", "waiting for a lock", "waiting on a condition", "joining", "done"};
    for (int i = 0; i < g_nthr && o < n - 60; ++i) o += snprintf(buf + o, n - o, "%sthread %d %s", i ? ", " : "", i, names[g_thr[i].st]);
}
// current thread cannot continue: run somebody else; returns when rescheduled
// the runtime's own copies must not pass through the intercepted memcpy and memset
static inline void rt_copy(void* d, const void* s, u64 n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void rt_zero(void* d, u64 n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory"); }
static void block_here(TState st, const void* on)
{
    Thr* T = t_self; T->st = st; T->wait_on = on;
    int cand[kMaxThreads]; int n = collect(T->id, cand);
    if (!n) { // nobody runnable: fire the earliest timed wait, else deadlock
        for (int i = 0; i < g_nthr; ++i) { int j = (T->id + 1 + i) % g_nthr; if (g_thr[j].st == BLK_COND && g_thr[j].timed) { g_thr[j].timed_out = true; g_thr[j].st = RUNNABLE; g_simns += 1000000; if (j == T->id) return; cand[n++] = j; break; } }
        if (!n) { char b[300]; describe_blocked(b, sizeof b); bool self = false; for (int i = 0; i < g_nthr; ++i) if (g_thr[i].st == BLK_LOCK) self = true;
            fatal("deadlock", "deadlock: no thread can continue (%s)%s", b, self ? "" : " [condition never signalled]"); }
    }
    int k = pick(T->id, cand, n, false, 1);
    switch_to(T, cand[k], true);
}
static void wake_waiters(const void* on, TState st) { for (int i = 0; i < g_nthr; ++i) if (g_thr[i].st == st && g_thr[i].wait_on == on) g_thr[i].st = RUNNABLE; }

void park_forever() { Thr* T = t_self; static char never; for (;;) { T->in_rt++; block_here(BLK_COND, &never); T->in_rt--; } }
int self() { return t_self ? t_self->id : 0; }
bool in_sim() { return t_self && g_active; }
void yield_point(int tag) { if (t_self && !t_self->harness) sched_point(100 + tag % 100); }

static void join_clock(Clock a, const Clock b) { for (int i = 0; i < kMaxThreads; ++i) if (b[i] > a[i]) a[i] = b[i]; }

static void set_stack(Thr* T)
{
    pthread_attr_t at; void* lo = nullptr; size_t sz = 0;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); }
    T->stk_lo = (char*)lo; T->stk_hi = (char*)lo + sz;
}
static void* thread_main(void* p)
{
    Thr* T = (Thr*)p;
    T->in_rt = 1; t_self = T;
    set_stack(T);
    park(T);
    T->in_rt = 0;
    T->fn(T->arg);
    T->in_rt = 1;
    T->st = DONE;
    g_loghash = hmix(g_loghash, 0xd0de + T->id);
    wake_waiters(nullptr, BLK_JOIN);
    int cand[kMaxThreads]; int n = collect(T->id, cand);
    if (!n) { for (int i = 0; i < g_nthr; ++i) if (g_thr[i].st == BLK_COND && g_thr[i].timed) { g_thr[i].timed_out = true; g_thr[i].st = RUNNABLE; cand[n++] = i; break; } }
    if (!n) { char b[300]; describe_blocked(b, sizeof b); T->in_rt = 0; fatal("deadlock", "deadlock: no thread can continue (%s)", b); }
    t_self = T;
    int k = pick(T->id, cand, n, false, 2);
    t_self = nullptr;
    switch_to(T, cand[k], false);
    return nullptr;
}
int spawn(void (*fn)(void*), void* arg)
{
    Thr* M = t_self; M->in_rt++;
    if (g_nthr >= kMaxThreads) { g_shm->outcome = INTERNAL; _exit(3); }
    int id = g_nthr; Thr* T = &g_thr[id];
    rt_zero(T, sizeof *T);
    T->id = id; T->fn = fn; T->arg = arg; T->prio = g_mode == 0 ? (int)(g_rng[SCHED].below(1000)) + 1 : 0;
    rt_copy(T->c, M->c, sizeof(Clock)); T->c[id]++; M->c[M->id]++;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
    if (pthread_create(&T->h, &at, thread_main, T)) { g_shm->outcome = INTERNAL; copy_str(g_shm->msg, "pthread_create failed", 100); _exit(3); }
    pthread_attr_destroy(&at);
    T->st = RUNNABLE; g_nthr++; g_multi = true;
    M->in_rt--;
    return id;
}
void join_all()
{
    Thr* M = t_self; M->in_rt++;
    for (;;) {
        bool all = true; for (int i = 1; i < g_nthr; ++i) if (g_thr[i].st != DONE) all = false;
        if (all) break;
        block_here(BLK_JOIN, nullptr);
    }
    for (int i = 1; i < g_nthr; ++i) { pthread_join(g_thr[i].h, nullptr); join_clock(M->c, g_thr[i].c); }
    // thread ids may be reused by a later phase: keep clocks monotone
    int n = g_nthr; g_nthr = 1; M->streak = 0;
    for (int i = 1; i < n; ++i) g_thr[i].st = UNUSED;
    M->in_rt--;
}

void harness_enter() { if (t_self) t_self->harness++; }
void harness_leave() { if (t_self) t_self->harness--; }
int harness_suspend() { if (!t_self) return 0; int n = t_self->harness; t_self->harness = 0; return n; }
void harness_resume(int n) { if (t_self) t_self->harness = n; }

// ------------------------------------------------------------------------------------------------ history
static Event* g_ev; static u32 g_nev; constexpr u32 kEvCap = 1 << 18;
u32 rec(int kind, int a, int b, int c, int d)
{
    Thr* T = t_self; if (!T) return 0;
    if (g_nev >= kEvCap) { g_active = false; g_shm->outcome = INTERNAL; copy_str(g_shm->msg, "event log full", 100); _exit(3); }
    Event& e = g_ev[g_nev]; e.seq = ++g_nev; e.tid = T->id; e.kind = kind; e.a = a; e.b = b; e.c = c; e.d = d;
    u64 h = hmix((u64)T->id << 32 | (u32)kind, (u64)(u32)a << 32 | (u32)b); h = hmix(h, (u64)(u32)c << 32 | (u32)d);
    g_loghash = hmix(g_loghash, h); g_mixhash = hmix(g_mixhash, h);
    if (UNLIKELY(g_verbose)) { T->in_rt++; int hs = T->harness; T->harness = 1; char buf[256]; buf[0] = 0; harness.describe(e, buf, sizeof buf); if (buf[0]) fprintf(stderr, "  %4u t%d %s\n", e.seq, e.tid, buf); T->harness = hs; T->in_rt--; }
    return e.seq;
}
u32 now() { return g_nev; }
const Event* events() { return g_ev; }
u32 num_events() { return g_nev; }
void note(const char* fmt, ...) { if (!g_verbose) return; if (t_self) t_self->in_rt++; va_list ap; va_start(ap, fmt); fprintf(stderr, "       t%d ", t_self ? t_self->id : -1); vfprintf(stderr, fmt, ap); fputc('\n', stderr); va_end(ap); if (t_self) t_self->in_rt--; }

// ------------------------------------------------------------------------------------------------ arena
constexpr u64 kArenaBase = 0x100000000000ull, kArenaSize = 1ull << 30;
constexpr u64 kGranBase = 0x110000000000ull;
struct Block { u64 addr; u64 size; u32 live; u64 pc; u64 birth; };
static bool g_reuse; static u32 g_freed[256]; static u32 g_nfreed; static u64 g_births; // in some runs a freed address is handed out again at once, as real allocators do
static void forget_range(u64 a, u64 n);
static u64 g_bump; static Block* g_blk; static u32 g_nblk; constexpr u32 kBlkCap = 1 << 20;
static u64 g_live_bytes, g_peak, g_live_blocks, g_maxreq, g_cap = 64ull << 20; static bool g_over_cap;
enum { G_BAD = 0, G_FULL = 0xff, G_FREED = 0xfe };

static inline bool in_arena(u64 a) { return a - kArenaBase < kArenaSize; }
static inline u8* gran(u64 a) { return (u8*)(kGranBase + ((a - kArenaBase) >> 4)); }
static void mem_report(u64 a, u64 n, const char* what, u64 pc) __attribute__((noinline));
static inline void check_mem(u64 a, u64 n, bool w, u64 pc)
{
    if (!in_arena(a) || !n) return;
    u64 end = a + n;
    for (u64 g = a & ~15ull; g < end; g += 16) {
        u8 s = *gran(g);
        if (LIKELY(s == G_FULL)) continue;
        u64 hi = end - g < 16 ? end - g : 16;
        if (s == G_BAD || s == G_FREED || hi > s) mem_report(a, n, w ? "write" : "read", pc);
    }
}
bool addressable(const void* p, size_t n)
{
    u64 a = (u64)p, end = a + n; if (!in_arena(a)) return true;
    for (u64 g = a & ~15ull; g < end; g += 16) { u8 s = *gran(g); if (s == G_FULL) continue; u64 hi = end - g < 16 ? end - g : 16; if (s == G_BAD || s == G_FREED || hi > s) return false; }
    return true;
}
static u64 caller_pc() { Thr* T = t_self; return T && T->csn && T->csn <= 64 ? T->cs[T->csn - 1] : 0; }
static void mem_report(u64 a, u64 n, const char* what, u64 pc)
{
    Thr* T = t_self; if (T) { T->in_rt++; if (T->csn < 64) T->cs[T->csn++] = pc; }
    u8 s = *gran(a); const char* k = s == G_FREED ? "freed" : "out-of-bounds";
    // nearest block
    long bi = -1; for (u32 i = 0; i < g_nblk; ++i) if (g_blk[i].addr <= a) bi = i; else break;
    if (s != G_FREED && bi >= 0 && *gran(g_blk[bi].addr) == G_FREED && a < g_blk[bi].addr + g_blk[bi].size) k = "freed";
    if (bi >= 0) fatal("memory", "%s of %llu bytes of %s memory, at offset %lld of block #%ld (%llu bytes)", what, (unsigned long long)n, k, (long long)(a - g_blk[bi].addr), bi, (unsigned long long)g_blk[bi].size);
    fatal("memory", "%s of %llu bytes of %s memory", what, (unsigned long long)n, k);
}
static void* arena_alloc(u64 n, u64 align)
{
    if (align < 16) align = 16;
    if (n > g_maxreq) g_maxreq = n;
    if (g_reuse && n && n <= g_cap && align == 16) for (u32 k = 0; k < g_nfreed && k < 32; ++k) {
        u32 bi = g_freed[g_nfreed - 1 - k]; Block& b = g_blk[bi]; if ((b.size + 15) / 16 != (n + 15) / 16 || (b.addr & 15)) continue;
        for (u32 j = g_nfreed - 1 - k; j + 1 < g_nfreed; ++j) g_freed[j] = g_freed[j + 1];
        g_nfreed--; u64 a = b.addr, end = a + n; forget_range(a, n); b = Block{a, n, 1, caller_pc(), g_births++};
        for (u64 g = a; g < end; g += 16) *gran(g) = end - g >= 16 ? G_FULL : (u8)(end - g);
        for (u64 i = 0; i < n && i < 4096; ++i) ((u8*)a)[i] = 0xCD;
        g_live_bytes += n; g_live_blocks++; if (g_live_bytes > g_peak) g_peak = g_live_bytes;
        g_loghash = hmix(g_loghash, 0xa110c100000ull + n); g_shm->allocs++; count("address-reused", 0);
        return (void*)a;
    }
    if (n > g_cap || g_bump + n + 4 * align + 128 > kArenaSize || g_nblk >= kBlkCap) { g_over_cap = true; return nullptr; }
    u64 a = kArenaBase + g_bump + 32; a = (a + align - 1) & ~(align - 1);
    u64 end = a + n; g_bump = ((end + 16 + 15) & ~15ull) - kArenaBase;
    for (u64 g = a; g < end; g += 16) *gran(g) = end - g >= 16 ? G_FULL : (u8)(end - g);
    if (!n) *gran(a) = G_BAD;
    *(u32*)(a - 8) = g_nblk; *(u32*)(a - 4) = 0xb10cb10c;
    g_blk[g_nblk++] = Block{a, n, 1, caller_pc(), g_births++};
    for (u64 i = 0; i < n && i < 4096; ++i) ((u8*)a)[i] = 0xCD;
    g_live_bytes += n; g_live_blocks++; if (g_live_bytes > g_peak) g_peak = g_live_bytes;
    g_loghash = hmix(g_loghash, 0xa110c000000ull + n);
    g_shm->allocs++;
    return (void*)a;
}
static void race_free(u64 a, u64 n, u64 pc);
static void arena_free(void* p, u64 pc)
{
    u64 a = (u64)p;
    if ((a & 15) || *(u32*)(a - 4) != 0xb10cb10c || *(u32*)(a - 8) >= g_nblk || g_blk[*(u32*)(a - 8)].addr != a) { if (t_self && t_self->csn < 64) t_self->cs[t_self->csn++] = pc; fatal("memory", "free of a pointer that is not the start of a block"); }
    Block& b = g_blk[*(u32*)(a - 8)];
    if (!b.live) { if (t_self && t_self->csn < 64) t_self->cs[t_self->csn++] = pc; fatal("memory", "double free of block #%u (%llu bytes)", *(u32*)(a - 8), (unsigned long long)b.size); }
    race_free(a, b.size, pc);
    b.live = 0; g_live_bytes -= b.size; g_live_blocks--;
    for (u64 g = a; g < a + b.size; g += 16) *gran(g) = G_FREED;
    for (u64 i = 0; i < b.size && i < 4096; ++i) ((u8*)a)[i] = 0xDD;
    g_loghash = hmix(g_loghash, 0xf4ee000000ull + b.size);
    if (g_reuse) { if (g_nfreed == 256) { for (u32 j = 0; j + 1 < 256; ++j) g_freed[j] = g_freed[j + 1]; g_nfreed--; } g_freed[g_nfreed++] = (u32)(&b - g_blk); }
}
u64 arena_live_bytes() { return g_live_bytes; } u64 arena_live_blocks() { return g_live_blocks; }
u64 arena_peak_bytes() { return g_peak; } void arena_reset_peak() { g_peak = g_live_bytes; }
u64 arena_max_request() { return g_maxreq; } void arena_reset_max_request() { g_maxreq = 0; g_over_cap = false; }
void set_alloc_cap(u64 n) { g_cap = n; }
u64 arena_mark() { return g_births; }
// Memory that is kept for the life of the program (a table built on first use) is not lost: blocks that static or
// thread-local storage of the program leads to are not counted. The simulator's own storage is in sections of its own.
extern "C" { extern char __data_start, _end; extern char __start_simbss[] __attribute__((weak)), __stop_simbss[] __attribute__((weak)); }
static int tls_cb(struct dl_phdr_info* i, size_t, void* out) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { u64 al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1; *(u64*)out = (i->dlpi_phdr[k].p_memsz + al - 1) & ~(al - 1); } return 1; } // the first object is the program
static u32 lost_since(u64 mark, u32& first)
{
    static u32 *live, *todo; static u8* seen; u32 nl = 0, nt = 0, old = 0, n = 0;
    for (u32 i = 0; i < g_nblk; ++i) if (g_blk[i].live) { nl++; if (g_blk[i].birth >= mark) old++; }
    if (!old) return 0;
    if (!live) { live = (u32*)mmap(nullptr, kBlkCap * 9ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); todo = live + kBlkCap; seen = (u8*)(todo + kBlkCap); }
    nl = 0; for (u32 i = 0; i < g_nblk; ++i) if (g_blk[i].live) { live[nl++] = i; seen[i] = 0; }
    std::sort(live, live + nl, [](u32 x, u32 y) { return g_blk[x].addr < g_blk[y].addr; });
    auto look = [&](u64 from, u64 to) { for (u64 a = (from + 7) & ~7ull; a + 8 <= to; a += 8) {
        u64 p = *(u64*)a; if (!in_arena(p)) continue;
        u32 lo = 0, hi = nl; while (lo < hi) { u32 m = (lo + hi) / 2; if (g_blk[live[m]].addr <= p) lo = m + 1; else hi = m; }
        if (!lo) continue;
        u32 b = live[lo - 1]; if (p > g_blk[b].addr + g_blk[b].size || seen[b]) continue; seen[b] = 1; todo[nt++] = b; } };
    u64 d0 = (u64)&__data_start, d1 = (u64)&_end, s0 = (u64)__start_simbss, s1 = (u64)__stop_simbss;
    if (s0 && s0 >= d0 && s1 <= d1) { look(d0, s0); look(s1, d1); } else if (s0) look(d0, d1);
    u64 tls = 0; dl_iterate_phdr(tls_cb, &tls); u64 tp = (u64)__builtin_thread_pointer(); if (tls && tls < 65536) look(tp - tls, tp);
    while (nt) { Block& b = g_blk[todo[--nt]]; look(b.addr, b.addr + b.size); }
    for (u32 k = nl; k--;) if (!seen[live[k]] && g_blk[live[k]].birth >= mark) { first = live[k]; n++; }
    return n;
}
u32 arena_lost_since(u64 mark) { u32 f; return lost_since(mark, f); }
void leak_check_since(u64 mark, const char* props)
{
    u32 i = 0, n = lost_since(mark, i); if (!n) return;
    Thr* T = t_self; if (T) { T->csn = 0; T->cs[T->csn++] = g_blk[i].pc; }
    violation(props, "leak", "%u block(s) still allocated; first: block #%u of %llu bytes", n, i, (unsigned long long)g_blk[i].size);
}
void leak_check(const char* props) { leak_check_since(0, props); }
void arm_alloc(u32 k, bool sticky) { Thr* T = t_self; T->arm_k = k; T->arm_sticky = sticky; T->arm_cnt = 0; T->arm_fired = 0; }
u32 disarm_alloc() { Thr* T = t_self; T->arm_k = 0; u32 f = T->arm_fired; T->arm_fired = 0; return f; }
u32 alloc_count() { return t_self->arm_cnt; }
void* raw_alloc(size_t n) { Thr* T = t_self; T->in_rt++; void* p = arena_alloc(n, 16); T->in_rt--; return p; }
void raw_free(void* p) { Thr* T = t_self; T->in_rt++; arena_free(p, 0); T->in_rt--; }

static bool g_alloc_points;
void set_alloc_points(bool on) { g_alloc_points = on; }
static void* sim_new(size_t n, size_t align, bool nothrow)
{
    Thr* T = t_self;
    if (!T || !g_active || T->harness || T->in_rt) {
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
        if (!p && !nothrow) throw std::bad_alloc();
        return p;
    }
    budget_check();
    if (g_alloc_points) sched_point(40);
    T->in_rt++;
    T->arm_cnt++;
    void* p = nullptr;
    if (T->arm_k && (T->arm_cnt == T->arm_k || (T->arm_sticky && T->arm_cnt > T->arm_k))) { T->arm_fired++; count("alloc-failure", 1); g_loghash = hmix(g_loghash, 0xfa11); }
    else p = arena_alloc(n, align);
    T->in_rt--;
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void sim_delete(void* p, u64 pc)
{
    if (!p) return;
    if (in_arena((u64)p)) { Thr* T = t_self; if (T) T->in_rt++; arena_free(p, pc); if (T) T->in_rt--; return; }
    free(p);
}

// malloc and friends of the instrumented objects (RapidJSON); redirected by objcopy, never made to fail
extern "C" {
void* simm_malloc(size_t n)
{
    Thr* T = t_self;
    if (!T || !g_active || T->harness || T->in_rt) return malloc(n);
    budget_check(); T->in_rt++; void* p = arena_alloc(n, 16); T->in_rt--;
    return p;
}
void simm_free(void* p) { sim_delete(p, (u64)__builtin_return_address(0)); }
void* simm_calloc(size_t a, size_t b) { void* p = simm_malloc(a * b); if (p) for (size_t i = 0; i < a * b; ++i) ((volatile u8*)p)[i] = 0; return p; }
void* simm_realloc(void* p, size_t n)
{
    if (!p) return simm_malloc(n);
    if (!in_arena((u64)p)) return realloc(p, n);
    u64 old = g_blk[*(u32*)((u64)p - 8)].size;
    check_mem((u64)p, 1, true, (u64)__builtin_return_address(0));
    Thr* T = t_self; T->in_rt++; u8* q = (u8*)arena_alloc(n, 16); T->in_rt--;
    if (!q) return nullptr;
    for (u64 i = 0; i < old && i < n; ++i) ((volatile u8*)q)[i] = ((u8*)p)[i];
    sim_delete(p, (u64)__builtin_return_address(0));
    return q;
}
}

// ------------------------------------------------------------------------------------------------ races
struct Cell { u32 w[kMaxThreads], r[kMaxThreads], aw[kMaxThreads], ar[kMaxThreads]; u8 mw[kMaxThreads], mr[kMaxThreads], maw[kMaxThreads], mar[kMaxThreads]; };
struct Page { u64 key; Cell* cells; };
constexpr u32 kPages = 1 << 12;
static Page g_pages[kPages]; static u64 g_last_key; static Cell* g_last_cells;
static Cell* cells_of(u64 key)
{
    if (key == g_last_key && g_last_cells) return g_last_cells;
    u32 h = (u32)((key * 0x9e3779b97f4a7c15ull) >> 40) & (kPages - 1);
    for (u32 i = 0; i < kPages; ++i) {
        Page& p = g_pages[(h + i) & (kPages - 1)];
        if (!p.cells) {
            p.key = key;
            p.cells = (Cell*)syscall(SYS_mmap, nullptr, sizeof(Cell) * 512, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p.cells == MAP_FAILED) { g_shm->outcome = INTERNAL; _exit(3); }
        }
        if (p.key == key) { g_last_key = key; g_last_cells = p.cells; return p.cells; }
    }
    g_shm->outcome = INTERNAL; _exit(3);
}
static void race_report(const char* what, const char* prev, int other, u64 addr, u64 pc)
{
    Thr* T = t_self; T->in_rt++; if (T->csn < 64) T->cs[T->csn++] = pc;
    long bi = -1; if (in_arena(addr)) { for (u32 i = 0; i < g_nblk; ++i) { if (g_blk[i].addr <= addr) bi = i; else break; } }
    char where[80]; if (bi >= 0) snprintf(where, sizeof where, "offset %lld of block #%ld (%llu bytes)", (long long)(addr - g_blk[bi].addr), bi, (unsigned long long)g_blk[bi].size); else snprintf(where, sizeof where, "non-heap memory");
    T->in_rt--;
    violation(g_race_props, "race", "data race: %s by thread %d and earlier %s by thread %d are unordered, at %s", what, T->id, prev, other, where);
}
static inline void race_cell(Thr* T, Cell& c, u8 m, bool w, bool at, u64 addr, u64 pc, const char* what)
{
    const int t = T->id;
    for (int u = 0; u < kMaxThreads; ++u) {
        if (u == t) continue;
        const u32 ct = T->c[u];
        if (UNLIKELY(c.w[u] > ct && (c.mw[u] & m))) race_report(what, "write", u, addr, pc);
        if (!at && UNLIKELY(c.aw[u] > ct && (c.maw[u] & m))) race_report(what, "atomic write", u, addr, pc);
        if (w) {
            if (UNLIKELY(c.r[u] > ct && (c.mr[u] & m))) race_report(what, "read", u, addr, pc);
            if (!at && UNLIKELY(c.ar[u] > ct && (c.mar[u] & m))) race_report(what, "atomic read", u, addr, pc);
        }
    }
    u32* e = at ? (w ? c.aw : c.ar) : (w ? c.w : c.r); u8* em = at ? (w ? c.maw : c.mar) : (w ? c.mw : c.mr);
    if (e[t] == T->c[t]) em[t] |= m; else { e[t] = T->c[t]; em[t] = m; }
}
// Races are judged on simulated heap blocks and on static storage of the program. Thread stacks, thread-local
// storage, exception objects and the harness's own heap are recycled between threads outside the simulator's view.
static inline bool race_tracked(u64 a) { return in_arena(a) || (a >= (u64)&__data_start && a < (u64)&_end); }
static void race_access(Thr* T, u64 a, u64 n, bool w, bool at, u64 pc, const char* what)
{
    if (!race_tracked(a)) return;
    u64 end = a + n;
    while (a < end) {
        Cell* cs = cells_of(a >> 12);
        u64 off = a & 7, k = 8 - off < end - a ? 8 - off : end - a;
        race_cell(T, cs[(a >> 3) & 511], (u8)(((1u << k) - 1) << off), w, at, a, pc, what);
        a += k;
    }
}
static void race_free(u64 a, u64 n, u64 pc)
{
    Thr* T = t_self; if (!g_multi || !T || !g_active || !g_race_props[0] || T->harness) return;
    race_access(T, a, n < 4096 ? n : 4096, true, false, pc, "deallocation");
}
static inline void access(u64 a, u64 n, bool w, u64 pc)
{
    Thr* T = t_self;
    if (UNLIKELY(!T) || T->in_rt || T->harness || !g_active) return;
    budget_check();
    check_mem(a, n, w, pc);
    if (!g_multi || !g_race_props[0]) return;
    if ((char*)a >= T->stk_lo && (char*)a < T->stk_hi) return;
    race_access(T, a, n, w, false, pc, w ? "write" : "read");
}

// sync objects: address -> clock
struct Sync { u64 addr; Clock c; int rel_tid; int writer; int readers; };
constexpr u32 kSyncs = 1 << 17; static Sync g_sync[kSyncs];
static Sync& sync_of(u64 a)
{
    u32 h = (u32)((a * 0x9e3779b97f4a7c15ull) >> 36) & (kSyncs - 1);
    for (u32 i = 0; i < kSyncs; ++i) { Sync& s = g_sync[(h + i) & (kSyncs - 1)]; if (s.addr == a) return s; if (!s.addr) { s.addr = a; s.rel_tid = -1; s.writer = -1; return s; } }
    g_shm->outcome = INTERNAL; copy_str(g_shm->msg, "sync table full", 60); _exit(3);
}
static void forget_range(u64 a, u64 n) // the memory starts a new life: what was done to its former owner orders and races with nothing
{
    if (!g_multi) return;
    for (u64 x = a & ~7ull; x < a + n; x += 8) rt_zero(&cells_of(x >> 12)[(x >> 3) & 511], sizeof(Cell));
    for (u64 x = a; x < a + n; x += 4) { u32 h = (u32)((x * 0x9e3779b97f4a7c15ull) >> 36) & (kSyncs - 1); for (u32 i = 0; i < kSyncs; ++i) { Sync& s = g_sync[(h + i) & (kSyncs - 1)]; if (!s.addr) break; if (s.addr == x) { rt_zero(s.c, sizeof s.c); s.rel_tid = -1; s.writer = -1; s.readers = 0; break; } } }
}
static void acquire_from(Thr* T, u64 a) { join_clock(T->c, sync_of(a).c); }
static void release_to(Thr* T, u64 a, bool replace) { Sync& s = sync_of(a); if (replace) rt_copy(s.c, T->c, sizeof(Clock)); else join_clock(s.c, T->c); s.rel_tid = T->id; T->c[T->id]++; }

static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static Thr* atomic_pre(u64 a, u64 n, bool w, u64 pc)
{
    Thr* T = t_self;
    if (!T || T->in_rt || T->harness || !g_active) return nullptr;
    sched_point(w ? 11 : 10);
    check_mem(a, n, w, pc);
    if (g_multi && g_race_props[0]) race_access(T, a, n, w, true, pc, w ? "atomic write" : "atomic read");
    return T;
}
static void atomic_load_post(Thr* T, u64 a, int mo) { if (!T) return; if (is_acq(mo)) acquire_from(T, a); else { if (!T->has_pending) { rt_zero(T->acq_pending, sizeof(Clock)); T->has_pending = true; } join_clock(T->acq_pending, sync_of(a).c); } }
static void atomic_store_pre(Thr* T, u64 a, int mo)
{
    if (!T) return;
    if (is_rel(mo)) release_to(T, a, true);
    else { Sync& s = sync_of(a); if (T->has_rel_fence) { rt_copy(s.c, T->rel_fence, sizeof(Clock)); s.rel_tid = T->id; } else if (s.rel_tid != T->id) rt_zero(s.c, sizeof(Clock)); }
}
static void atomic_rmw(Thr* T, u64 a, int mo)
{
    if (!T) return;
    atomic_load_post(T, a, mo);
    if (is_rel(mo)) release_to(T, a, false);
    else if (T->has_rel_fence) join_clock(sync_of(a).c, T->rel_fence);
}
static void fence(int mo)
{
    Thr* T = t_self; if (!T || T->in_rt || T->harness || !g_active) return;
    sched_point(12);
    if (is_acq(mo) && T->has_pending) join_clock(T->c, T->acq_pending);
    if (is_rel(mo)) { rt_copy(T->rel_fence, T->c, sizeof(Clock)); T->has_rel_fence = true; T->c[T->id]++; }
}

// ------------------------------------------------------------------------------------------------ locks
typedef int (*mfn)(pthread_mutex_t*);
template <typename F> static F real_fn(F& slot, const char* name) { if (!slot) slot = (F)dlsym(RTLD_NEXT, name); return slot; }
static bool sim_lock_ctx() { Thr* T = t_self; return T && !T->in_rt && g_active; }

static bool mtx_try(Thr* T, pthread_mutex_t* m)
{
    auto& d = m->__data;
    if (d.__lock == 0) { d.__lock = 1; d.__owner = T->id + 1; d.__count = 1; acquire_from(T, (u64)m); return true; }
    if (d.__owner == T->id + 1 && (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { d.__count++; return true; }
    return false;
}
static int mtx_lock(pthread_mutex_t* m, u64 pc)
{
    Thr* T = t_self; check_mem((u64)m, sizeof *m, true, pc);
    sched_point(20);
    if (T->harness) { return 0; }
    check_mem((u64)m, sizeof *m, true, pc);
    T->in_rt++;
    while (!mtx_try(T, m)) {
        if (m->__data.__owner == T->id + 1) count("lock-held-by-self", 0); else count("lock-contended", 0);
        block_here(BLK_LOCK, m);
        budget_check();
    }
    T->in_rt--;
    return 0;
}
static int mtx_trylock(pthread_mutex_t* m, u64 pc)
{
    Thr* T = t_self; if (T->harness) return 0;
    check_mem((u64)m, sizeof *m, true, pc); sched_point(21); check_mem((u64)m, sizeof *m, true, pc);
    return mtx_try(T, m) ? 0 : EBUSY;
}
static int mtx_unlock(pthread_mutex_t* m, u64 pc)
{
    Thr* T = t_self; if (T->harness) return 0;
    check_mem((u64)m, sizeof *m, true, pc);
    auto& d = m->__data;
    if (d.__lock == 0 || d.__owner != T->id + 1) { fatal("bad-unlock", "unlock of a mutex not held by the calling thread"); }
    if (--d.__count == 0) { d.__lock = 0; d.__owner = 0; release_to(T, (u64)m, false); wake_waiters(m, BLK_LOCK); }
    sched_point(22);
    return 0;
}
} // namespace sim
using namespace sim;

#define RA ((u64)__builtin_return_address(0))
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { static mfn r; if (sim_lock_ctx()) return mtx_lock(m, RA); return real_fn(r, "pthread_mutex_lock")(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { static mfn r; if (sim_lock_ctx()) return mtx_trylock(m, RA); return real_fn(r, "pthread_mutex_trylock")(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { static mfn r; if (sim_lock_ctx()) return mtx_unlock(m, RA); return real_fn(r, "pthread_mutex_unlock")(m); }
int pthread_mutex_destroy(pthread_mutex_t* m) { static mfn r; if (sim_lock_ctx()) { if (!t_self->harness && m->__data.__lock) fatal("bad-unlock", "destruction of a locked mutex"); return 0; } return real_fn(r, "pthread_mutex_destroy")(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { Thr* T = t_self; if (!T) return EINVAL; for (int i = 0; i < 50; ++i) { if (!mtx_trylock(m, RA)) return 0; } return ETIMEDOUT; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_mutex_timedlock(m, t); }

static int rw_lock(pthread_rwlock_t* l, bool wr, bool tryonly, u64 pc)
{
    Thr* T = t_self; if (T->harness) return 0;
    check_mem((u64)l, sizeof *l, true, pc); sched_point(23); check_mem((u64)l, sizeof *l, true, pc);
    T->in_rt++;
    for (;;) {
        Sync& s = sync_of((u64)l);
        if (wr ? (s.writer < 0 && s.readers == 0) : (s.writer < 0)) { if (wr) s.writer = T->id; else s.readers++; join_clock(T->c, s.c); break; }
        if (tryonly) { T->in_rt--; return EBUSY; }
        block_here(BLK_LOCK, l); budget_check();
    }
    T->in_rt--; return 0;
}
static int rw_unlock(pthread_rwlock_t* l, u64 pc)
{
    Thr* T = t_self; if (T->harness) return 0; check_mem((u64)l, sizeof *l, true, pc);
    Sync& s = sync_of((u64)l);
    if (s.writer == T->id) s.writer = -1; else if (s.readers > 0) s.readers--; else fatal("bad-unlock", "unlock of a rwlock that is not held");
    release_to(T, (u64)l, false); wake_waiters(l, BLK_LOCK); sched_point(24); return 0;
}
typedef int (*rfn)(pthread_rwlock_t*);
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { static rfn r; if (sim_lock_ctx()) return rw_lock(l, false, false, RA); return real_fn(r, "pthread_rwlock_rdlock")(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { static rfn r; if (sim_lock_ctx()) return rw_lock(l, true, false, RA); return real_fn(r, "pthread_rwlock_wrlock")(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { static rfn r; if (sim_lock_ctx()) return rw_lock(l, false, true, RA); return real_fn(r, "pthread_rwlock_tryrdlock")(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { static rfn r; if (sim_lock_ctx()) return rw_lock(l, true, true, RA); return real_fn(r, "pthread_rwlock_trywrlock")(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { static rfn r; if (sim_lock_ctx()) return rw_unlock(l, RA); return real_fn(r, "pthread_rwlock_unlock")(l); }

typedef int (*cwfn)(pthread_cond_t*, pthread_mutex_t*); typedef int (*cfn)(pthread_cond_t*);
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 pc)
{
    Thr* T = t_self; if (T->harness) return 0;
    T->in_rt++;
    m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0; release_to(T, (u64)m, false); wake_waiters(m, BLK_LOCK);
    T->timed = timed; T->timed_out = false;
    if (choose(FAULT, 16) == 15) count("spurious-wakeup", 1); else block_here(BLK_COND, c);
    int rc = T->timed_out ? ETIMEDOUT : 0; T->timed = false;
    if (!rc) acquire_from(T, (u64)c);
    T->in_rt--;
    mtx_lock(m, pc);
    return rc;
}
static int cond_wake(pthread_cond_t* c, bool all)
{
    Thr* T = t_self; if (T->harness) return 0;
    release_to(T, (u64)c, false);
    for (int k = 0; k < g_nthr; ++k) { int i = (T->id + 1 + k) % g_nthr; if (g_thr[i].st == BLK_COND && g_thr[i].wait_on == c) { g_thr[i].st = RUNNABLE; if (!all) break; } }
    sched_point(26); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static cwfn r; if (sim_lock_ctx()) return cond_wait(c, m, false, RA); return real_fn(r, "pthread_cond_wait")(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { if (sim_lock_ctx()) return cond_wait(c, m, true, RA); return EINVAL; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { if (sim_lock_ctx()) return cond_wait(c, m, true, RA); return EINVAL; }
int pthread_cond_signal(pthread_cond_t* c) { static cfn r; if (sim_lock_ctx()) return cond_wake(c, false); return real_fn(r, "pthread_cond_signal")(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { static cfn r; if (sim_lock_ctx()) return cond_wake(c, true); return real_fn(r, "pthread_cond_broadcast")(c); }

int pthread_spin_lock(pthread_spinlock_t* l) { if (!sim_lock_ctx()) { while (__atomic_exchange_n((int*)l, 1, __ATOMIC_ACQUIRE)) ; return 0; } for (;;) { sched_point(27); budget_check(); if (!*(volatile int*)l) { *(volatile int*)l = 1; acquire_from(t_self, (u64)l); return 0; } } }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (sim_lock_ctx()) release_to(t_self, (u64)l, false); *(volatile int*)l = 0; if (sim_lock_ctx()) sched_point(28); return 0; }
int pthread_spin_init(pthread_spinlock_t* l, int) { *(volatile int*)l = 0; return 0; }

// once / function statics
typedef int (*ofn)(pthread_once_t*, void (*)());
int pthread_once(pthread_once_t* o, void (*f)())
{
    static ofn r;
    if (!sim_lock_ctx() || t_self->harness) return real_fn(r, "pthread_once")(o, f);
    Thr* T = t_self; volatile int* s = (volatile int*)o;
    sched_point(29);
    for (;;) {
        if (*s == 2) { acquire_from(T, (u64)o); return 0; }
        if (*s == 0) {
            acquire_from(T, (u64)o); *s = 1;
            try { f(); } catch (...) { *s = 0; release_to(T, (u64)o, false); wake_waiters(o, BLK_LOCK); throw; }
            *s = 2; release_to(T, (u64)o, false); wake_waiters(o, BLK_LOCK); sched_point(29); return 0;
        }
        T->in_rt++; block_here(BLK_LOCK, o); T->in_rt--; budget_check();
    }
}
} // extern C
namespace __cxxabiv1 { extern "C" {
int __cxa_guard_acquire(long long* g)
{
    volatile char* b = (volatile char*)g;
    if (!sim_lock_ctx()) { if (b[0]) return 0; b[1] = 1; return 1; }
    Thr* T = t_self;
    // the harness's own code never chooses a schedule, but a static another thread is in the middle of initialising must still be waited for
    if (T->harness) { if (b[0]) return 0; if (!b[1]) { b[1] = 1; b[2] = (char)(T->id + 1); return 1; } }
    else sched_point(30);
    for (;;) {
        if (b[0]) { acquire_from(T, (u64)g); return 0; }
        if (!b[1]) { acquire_from(T, (u64)g); b[1] = 1; b[2] = (char)(T->id + 1); count("static-init", 0); return 1; }
        if (b[2] == T->id + 1) fatal("deadlock", "recursive initialisation of a function-local static");
        count("static-init-contended", 0);
        T->in_rt++; block_here(BLK_LOCK, g); T->in_rt--; budget_check();
    }
}
void __cxa_guard_release(long long* g)
{
    volatile char* b = (volatile char*)g; b[1] = 0; b[0] = 1;
    if (sim_lock_ctx()) { if (!t_self->harness) release_to(t_self, (u64)g, false); wake_waiters(g, BLK_LOCK); if (!t_self->harness) sched_point(31); }
}
void __cxa_guard_abort(long long* g)
{
    volatile char* b = (volatile char*)g; b[1] = 0;
    if (sim_lock_ctx()) { if (!t_self->harness) release_to(t_self, (u64)g, false); wake_waiters(g, BLK_LOCK); if (!t_self->harness) sched_point(32); }
}
} }
extern "C" {
// time and yielding
int sched_yield() { if (sim_lock_ctx() && !t_self->harness) { Thr* T = t_self; g_points++; budget_check(); int cand[kMaxThreads]; int n = collect(T->id, cand); if (n) { int k = pick(T->id, cand, n, false, 3); switch_to(T, cand[k], true); } return 0; } return (int)syscall(SYS_sched_yield); }
int nanosleep(const struct timespec* t, struct timespec* rem) { if (sim_lock_ctx()) { g_simns += t->tv_sec * 1000000000ull + t->tv_nsec; return sched_yield(); } return (int)syscall(SYS_nanosleep, t, rem); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem) { if (sim_lock_ctx()) { (void)c; (void)fl; g_simns += 1000000; return sched_yield(); } return (int)syscall(SYS_clock_nanosleep, c, fl, t, rem); }
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int clock_gettime(clockid_t c, struct timespec* t) { if (sim_lock_ctx()) { g_simns += 1000; t->tv_sec = 1000000 + g_simns / 1000000000ull; t->tv_nsec = g_simns % 1000000000ull; return 0; } return (int)syscall(SYS_clock_gettime, c, t); }

// memory functions (also as called by libstdc++)
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) { if (n) { access((u64)s, n, false, RA); access((u64)d, n, true, RA); } void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n)
{
    if (n) { access((u64)s, n, false, RA); access((u64)d, n, true, RA); }
    void* r = d;
    if ((u64)d - (u64)s >= n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else { d = (char*)d + n - 1; s = (const char*)s + n - 1; __asm__ volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
    return r;
}
void* memset(void* d, int c, size_t n) { if (n) access((u64)d, n, true, RA); void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
int memcmp(const void* a, const void* b, size_t n) { if (n) { access((u64)a, n, false, RA); access((u64)b, n, false, RA); } const u8 *x = (const u8*)a, *y = (const u8*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; access((u64)s, n + 1, false, RA); return n; }
void* sim_memchr(const void* s, int c, size_t n) __asm__("memchr");
void* sim_memchr(const void* s, int c, size_t n) { const u8* p = (const u8*)s; size_t i = 0; void* r = nullptr; for (; i < n; ++i) if (p[i] == (u8)c) { r = (void*)(p + i); break; } if (n) access((u64)s, i < n ? i + 1 : n, false, RA); return r; }

// tsan interface
void __tsan_init() {}
void __tsan_func_entry(void* pc) { Thr* T = t_self; if (T) { if (T->csn < 64) T->cs[T->csn] = (u64)pc; T->csn++; } }
void __tsan_func_exit() { Thr* T = t_self; if (T && T->csn) T->csn--; }
#define RW(n) void __tsan_read##n(void* a) { access((u64)a, n, false, RA); } void __tsan_write##n(void* a) { access((u64)a, n, true, RA); } \
  void __tsan_unaligned_read##n(void* a) { access((u64)a, n, false, RA); } void __tsan_unaligned_write##n(void* a) { access((u64)a, n, true, RA); } \
  void __tsan_volatile_read##n(void* a) { access((u64)a, n, false, RA); } void __tsan_volatile_write##n(void* a) { access((u64)a, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (n) access((u64)a, n, false, RA); }
void __tsan_write_range(void* a, unsigned long n) { if (n) access((u64)a, n, true, RA); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((u64)a, 8, true, RA); }
void __tsan_vptr_read(void** a) { access((u64)a, 8, false, RA); }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), false, RA); T v = *a; atomic_load_post(t, (u64)a, mo); return v; } \
void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), true, RA); atomic_store_pre(t, (u64)a, mo); *a = v; if (t && t->id >= 0) sched_point(13); } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), true, RA); atomic_rmw(t, (u64)a, mo); T o = *a; *a = v; if (t) sched_point(14); return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), true, RA); atomic_rmw(t, (u64)a, mo); T o = *a; *a = o + v; if (t) sched_point(14); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), true, RA); atomic_rmw(t, (u64)a, mo); T o = *a; *a = o - v; if (t) sched_point(14); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), true, RA); atomic_rmw(t, (u64)a, mo); T o = *a; *a = o & v; if (t) sched_point(14); return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), true, RA); atomic_rmw(t, (u64)a, mo); T o = *a; *a = o | v; if (t) sched_point(14); return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), true, RA); atomic_rmw(t, (u64)a, mo); T o = *a; *a = o ^ v; if (t) sched_point(14); return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { Thr* t = atomic_pre((u64)a, sizeof(T), true, RA); atomic_rmw(t, (u64)a, mo); T o = *a; *a = ~(o & v); if (t) sched_point(14); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
  Thr* t = atomic_pre((u64)a, sizeof(T), false, RA); \
  if (*a == *e) { if (t && g_multi && g_race_props[0]) race_access(t, (u64)a, sizeof(T), true, true, RA, "atomic write"); atomic_rmw(t, (u64)a, mo); *a = v; if (t) sched_point(14); return 1; } \
  atomic_load_post(t, (u64)a, fmo); *e = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
} // extern C

void* operator new(size_t n) { return sim_new(n, 16, false); }
void* operator new[](size_t n) { return sim_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { sim_delete(p, RA); }
void operator delete[](void* p) noexcept { sim_delete(p, RA); }
void operator delete(void* p, size_t) noexcept { sim_delete(p, RA); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p, RA); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p, RA); }

// ------------------------------------------------------------------------------------------------ engine
namespace sim {
static void on_signal(int sig)
{
    if (g_expect_term && sig == SIGABRT) { count("required-termination", 0); publish(); g_shm->outcome = OK; _exit(0); }
    if (t_self) t_self->in_rt++;
    if (sig == SIGVTALRM) fatal("hang", "run used too much CPU time: an operation does not finish");
    if (sig == SIGABRT) fatal("abort", "the process was aborted (failed assertion or terminate)");
    fatal("crash", "the process crashed with signal %d", sig);
}
static void on_terminate()
{
    if (g_expect_term) { count("required-termination", 0); publish(); g_shm->outcome = OK; _exit(0); }
    if (t_self) t_self->in_rt++;
    const char* what = "";
    fatal("abort", "std::terminate was called%s", what);
}
static void child_main(const char* prop)
{
    static char altstk[64 * 1024];
    stack_t ss; rt_zero(&ss, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
    struct sigaction sa; rt_zero(&sa, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM};
    for (int s : sigs) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    struct itimerval it; rt_zero(&it, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (!g_verbose) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); close(n); } }

    Thr* T = &g_thr[0]; rt_zero(T, sizeof *T); T->id = 0; T->st = RUNNABLE; T->c[0] = 1; T->prio = 500; T->in_rt = 1;
    g_nthr = 1; g_cur = 0; g_steps = g_points = g_switches = 0; g_nev = 0; g_simns = 0;
    set_stack(T);
    t_self = T;
    if (g_mode == 0) { // scheduling strategy for this run
        Rng& r = g_rng[SCHED]; g_strat.kind = (int)r.below(8); if (g_strat.kind > 4) g_strat.kind = g_strat.kind == 5 ? 1 : (g_strat.kind == 6 ? 3 : 0);
        static const u32 ps[] = {128, 64, 32, 12, 200}; g_strat.p = ps[r.below(5)];
        g_strat.npre = 1 + r.below(5); u32 horizon = 20u << r.below(6); for (u32 i = 0; i < 8; ++i) g_strat.pre[i] = 1 + r.below(horizon);
        g_strat.victim = (int)r.below(kMaxThreads); T->prio = (int)r.below(1000) + 1;
    }
    g_nfreed = 0; g_births = 0; g_reuse = choose(FAULT, 4) == 3;
    g_active = true; T->in_rt = 0;
    harness.run(prop);
    T->in_rt = 1; g_active = false;
    publish(); g_shm->outcome = OK;
    _exit(0);
}
static u64 fnv(const char* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (u8)*s) * 1099511628211ull; return h; }

struct Result { int outcome; u64 loghash; };
static void reset_out()
{
    Shm* s = g_shm; s->outcome = RUNNING; s->props[0] = s->cls[0] = s->msg[0] = 0; s->loghash = s->schedhash = s->mixhash = 0; s->nontriv = 0;
    s->points = s->switches = s->steps = s->simns = s->allocs = 0; s->npcs = 0; for (int i = 0; i < kStreams; ++i) s->used[i] = 0; s->ncounters = 0;
}
static Result run_child(const char* prop)
{
    reset_out();
    pid_t p = fork();
    if (p == 0) { child_main(prop); _exit(3); }
    if (p < 0) { perror("fork"); exit(2); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (g_shm->outcome == RUNNING) { // died without a verdict
        if (WIFEXITED(st)) { copy_str(g_shm->cls, "exit", 60); copy_str(g_shm->props, g_prop, 60); snprintf(g_shm->msg, sizeof g_shm->msg, "the process exited with status %d in the middle of a run", WEXITSTATUS(st)); g_shm->outcome = VIOL; }
        else { copy_str(g_shm->cls, "killed", 60); snprintf(g_shm->msg, sizeof g_shm->msg, "the process was killed by signal %d", WTERMSIG(st)); copy_str(g_shm->props, g_prop, 60); g_shm->outcome = WTERMSIG(st) == SIGKILL ? INTERNAL : VIOL; }
    }
    return Result{g_shm->outcome, g_shm->loghash};
}
static bool accepted(const char* prop) // is prop in the comma list g_shm->props ?
{
    const char* p = g_shm->props; size_t n = 0; while (prop[n]) ++n;
    while (*p) { const char* q = p; while (*q && *q != ',') ++q; if ((size_t)(q - p) == n) { size_t i = 0; while (i < n && p[i] == prop[i]) ++i; if (i == n) return true; } p = *q ? q + 1 : q; }
    return false;
}
static void seed_run(u64 seed, const char* prop, u64 run)
{
    for (int i = 0; i < kStreams; ++i) { Rng r{hmix(hmix(hmix(seed, fnv(prop)), run), 0x1234567 + i)}; r.next(); g_rng[i].s = r.next(); }
}
struct Saved { u32 len[kStreams]; u32* data[kStreams]; };
static Saved save() { Saved s; for (int i = 0; i < kStreams; ++i) { s.len[i] = g_shm->len[i]; s.data[i] = (u32*)malloc(4 * (s.len[i] + 1)); for (u32 k = 0; k < s.len[i]; ++k) s.data[i][k] = g_shm->data[i][k]; } return s; }
static void load(const Saved& s) { for (int i = 0; i < kStreams; ++i) { g_shm->len[i] = s.len[i]; for (u32 k = 0; k < s.len[i]; ++k) g_shm->data[i][k] = s.data[i][k]; } }
static void copy_saved(Saved& d, const Saved& s) { for (int i = 0; i < kStreams; ++i) { d.len[i] = s.len[i]; for (u32 k = 0; k < s.len[i]; ++k) d.data[i][k] = s.data[i][k]; } }
static double nowd() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static u32 g_shrink_tries;
static bool still_fails(const Saved& c, const char* prop, const char* cls)
{
    load(c); g_mode = 1; g_shrink_tries++;
    Result r = run_child(prop);
    return r.outcome == VIOL && accepted(prop) && str_eq(g_shm->cls, cls);
}
static void shrink(Saved& best, const char* prop, const char* cls, double limit)
{
    double t0 = nowd(); Saved c = Saved{}; for (int i = 0; i < kStreams; ++i) c.data[i] = (u32*)malloc(4 * (best.len[i] + 1));
    bool progress = true;
    auto over = [&] { return nowd() - t0 > limit || g_shrink_tries > 6000; };
    // cut to what was consumed
    while (progress && !over()) {
        progress = false;
        static const int order[] = {FAULT, SCHED, PROG};
        for (int oi = 0; oi < 3; ++oi) {
            int s = order[oi];
            // truncate
            for (u32 cut = best.len[s]; cut > 0 && !over();) {
                copy_saved(c, best); c.len[s] = best.len[s] > cut ? best.len[s] - cut : 0;
                if (best.len[s] && still_fails(c, prop, cls)) { copy_saved(best, c); progress = true; if (cut > best.len[s]) cut = best.len[s]; } else cut /= 2;
            }
            // zero / delete chunks
            for (u32 ch = best.len[s] > 64 ? 64 : (best.len[s] ? best.len[s] : 1); ch > 0 && !over(); ch /= 2) {
                for (u32 i = 0; i < best.len[s] && !over();) {
                    u32 e = i + ch < best.len[s] ? i + ch : best.len[s];
                    if (s == PROG) { // delete
                        copy_saved(c, best); for (u32 k = e; k < best.len[s]; ++k) c.data[s][k - (e - i)] = best.data[s][k]; c.len[s] = best.len[s] - (e - i);
                        if (still_fails(c, prop, cls)) { copy_saved(best, c); progress = true; continue; }
                    }
                    bool nz = false; for (u32 k = i; k < e; ++k) if (best.data[s][k]) nz = true;
                    if (nz) { copy_saved(c, best); for (u32 k = i; k < e; ++k) c.data[s][k] = 0; if (still_fails(c, prop, cls)) { copy_saved(best, c); progress = true; } }
                    i = e;
                }
                if (s == SCHED) for (u32 i = 0; i < best.len[s] && !over();) { // deletion in the schedule
                    u32 e = i + ch < best.len[s] ? i + ch : best.len[s]; bool nz = false; for (u32 k = i; k < e; ++k) if (best.data[s][k]) nz = true;
                    if (!nz) { i = e; continue; }
                    copy_saved(c, best); for (u32 k = e; k < best.len[s]; ++k) c.data[s][k - (e - i)] = best.data[s][k]; c.len[s] = best.len[s] - (e - i);
                    if (still_fails(c, prop, cls)) { copy_saved(best, c); progress = true; } else i = e;
                }
            }
            // decrease values
            for (u32 i = 0; i < best.len[s] && !over(); ++i) {
                u32 v = best.data[s][i]; if (!v) continue;
                u32 tries[3] = {1, v / 2, v - 1};
                for (u32 t : tries) if (t && t < best.data[s][i]) { copy_saved(c, best); c.data[s][i] = t; if (still_fails(c, prop, cls)) { copy_saved(best, c); progress = true; break; } }
            }
        }
    }
    for (int i = 0; i < kStreams; ++i) while (best.len[i] && best.data[i][best.len[i] - 1] == 0) best.len[i]--;
}
static bool write_replay(const char* path, const char* prop, u64 seed, u64 run, const Saved& s, const char* extra)
{
    FILE* f = fopen(path, "w"); if (!f) return false;
    fprintf(f, "simreplay 1\nharness %s\nproperty %s\nseed %llu\nrun %llu\nclass %s\nloghash %016llx\nmessage %s\n", harness.name, prop, (unsigned long long)seed, (unsigned long long)run, g_shm->cls, (unsigned long long)g_shm->loghash, g_shm->msg);
    fprintf(f, "extra %s\npcs", extra); for (u32 i = 0; i < g_shm->npcs; ++i) fprintf(f, " %llx", (unsigned long long)g_shm->pcs[i]); fprintf(f, "\n");
    static const char* nm[] = {"program", "schedule", "fault"};
    for (int i = 0; i < kStreams; ++i) { fprintf(f, "stream %s %u", nm[i], s.len[i]); for (u32 k = 0; k < s.len[i]; ++k) fprintf(f, " %u", s.data[i][k]); fprintf(f, "\n"); }
    fclose(f); return true;
}
static bool read_replay(const char* path, char* prop, char* cls, u64& loghash)
{
    FILE* f = fopen(path, "r"); if (!f) return false;
    char w[64]; static const char* nm[] = {"program", "schedule", "fault"}; int got = 0;
    while (fscanf(f, "%63s", w) == 1) {
        if (str_eq(w, "property")) { if (fscanf(f, "%15s", prop) != 1) break; }
        else if (str_eq(w, "class")) { if (fscanf(f, "%63s", cls) != 1) break; }
        else if (str_eq(w, "loghash")) { unsigned long long h; if (fscanf(f, "%llx", &h) != 1) break; loghash = h; }
        else if (str_eq(w, "stream")) { char n[32]; u32 len; if (fscanf(f, "%31s %u", n, &len) != 2) break; for (int i = 0; i < kStreams; ++i) if (str_eq(n, nm[i])) { g_shm->len[i] = len > kStreamCap ? kStreamCap : len; for (u32 k = 0; k < len; ++k) { u32 v; if (fscanf(f, "%u", &v) != 1) { fclose(f); return false; } if (k < kStreamCap) g_shm->data[i][k] = v; } got++; } }
        else if (str_eq(w, "trace")) break;
        else { int ch; while ((ch = fgetc(f)) != EOF && ch != '\n') ; }
    }
    fclose(f); return got == kStreams;
}
struct Agg { Counter c[kCounters]; u32 n; };
static void agg_add(Agg& a) { for (u32 i = 0; i < g_shm->ncounters; ++i) { Counter& x = g_shm->counters[i]; u32 k = 0; for (; k < a.n; ++k) if (a.c[k].kind == x.kind && str_eq(a.c[k].name, x.name)) break; if (k == a.n) { if (a.n >= kCounters) continue; a.c[a.n] = x; a.n++; } else a.c[k].n += x.n; } }
} // namespace sim

static void map_fixed(u64 base, u64 size)
{
    void* p = (void*)syscall(SYS_mmap, (void*)base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)base) { perror("mmap arena"); exit(2); }
}
int main(int argc, char** argv)
{
    if (!getenv("SIM_NOASLR")) { int per = personality(0xffffffff); if (per != -1 && !(per & ADDR_NO_RANDOMIZE)) { setenv("SIM_NOASLR", "1", 1); if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); } }
    g_shm = (Shm*)syscall(SYS_mmap, nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    map_fixed(kArenaBase, kArenaSize); map_fixed(kGranBase, kArenaSize >> 4);
    g_blk = (Block*)syscall(SYS_mmap, nullptr, sizeof(Block) * kBlkCap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_ev = (Event*)syscall(SYS_mmap, nullptr, sizeof(Event) * kEvCap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);

    const char* cmd = argc > 1 ? argv[1] : "";
    const char* prop = "S01"; u64 seed = 1, start = 0, countn = 100, stride = 1; const char* out = nullptr; const char* replay_out = nullptr; double limit = 1e9; double shrink_limit = 20; int cpu = -1; bool dump_hashes = false;
    for (int i = 2; i < argc; ++i) {
        auto val = [&] { return i + 1 < argc ? argv[++i] : ""; };
        if (str_eq(argv[i], "--prop")) prop = val(); else if (str_eq(argv[i], "--seed")) seed = strtoull(val(), 0, 10); else if (str_eq(argv[i], "--start")) start = strtoull(val(), 0, 10);
        else if (str_eq(argv[i], "--count")) countn = strtoull(val(), 0, 10); else if (str_eq(argv[i], "--stride")) stride = strtoull(val(), 0, 10); else if (str_eq(argv[i], "--out")) out = val(); else if (str_eq(argv[i], "--replay-out")) replay_out = val();
        else if (str_eq(argv[i], "--limit")) limit = atof(val()); else if (str_eq(argv[i], "--shrink")) shrink_limit = atof(val()); else if (str_eq(argv[i], "--cpu")) cpu = atoi(val()); else if (str_eq(argv[i], "-v")) g_verbose = true; else if (str_eq(argv[i], "--hashes")) dump_hashes = true;
    }
    if (cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); int n = (int)sysconf(_SC_NPROCESSORS_CONF); cpu_set_t av; if (sched_getaffinity(0, sizeof av, &av) == 0) { int k = CPU_COUNT(&av); int want = k ? cpu % k : 0; for (int i = 0; i < n; ++i) if (CPU_ISSET(i, &av) && want-- == 0) { CPU_SET(i, &cs); sched_setaffinity(0, sizeof cs, &cs); break; } } }
    if (str_eq(cmd, "replay") || str_eq(cmd, "show")) {
        static char rp[16], cls[64]; u64 lh = 0;
        if (argc < 3 || !read_replay(argv[2], rp, cls, lh)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        g_prop = rp; g_mode = 1;
        Result r = run_child(rp);
        if (r.outcome == VIOL && accepted(rp)) { bool same = str_eq(cls, g_shm->cls) && lh == r.loghash; printf("REPRODUCED property=%s class=%s exact=%d: %s\n", rp, g_shm->cls, same, g_shm->msg); return same ? 1 : 4; }
        printf("NOT-REPRODUCED property=%s outcome=%d class=%s props=%s %s\n", rp, r.outcome, g_shm->cls, g_shm->props, g_shm->msg); return r.outcome == OK ? 0 : 4;
    }
    if (str_eq(cmd, "one")) { // run one seeded run verbosely
        g_prop = prop; seed_run(seed, prop, start); g_mode = 0; for (int i = 0; i < kStreams; ++i) g_shm->len[i] = 0;
        Result r = run_child(prop); printf("outcome=%d props=%s class=%s msg=%s loghash=%016llx points=%llu switches=%llu used=%u/%u/%u\n", r.outcome, g_shm->props, g_shm->cls, g_shm->msg, (unsigned long long)r.loghash, (unsigned long long)g_shm->points, (unsigned long long)g_shm->switches, g_shm->used[0], g_shm->used[1], g_shm->used[2]);
        return 0;
    }
    if (!str_eq(cmd, "run")) { fprintf(stderr, "usage: run|replay|one\n"); return 2; }
    g_prop = prop;
    static Agg agg; u64 runs = 0, points = 0, switches = 0, steps = 0, simns = 0, allocs = 0, nontriv = 0, others = 0, maxsteps = 0; double t0 = nowd();
    u64 foldhash = 0; char otherinfo[512] = "";
    FILE* hf = nullptr; char hn[512]; if (out) { snprintf(hn, sizeof hn, "%s.hashes", out); hf = fopen(hn, "wb"); }
    int rc = 0; bool nondet = false; u64 viol_run = 0; double shrink_s = 0; u32 raw_len[3] = {0,0,0};
    for (u64 k = 0; k < countn; ++k) {
        if ((k & 15) == 0 && nowd() - t0 > limit) break;
        u64 run = start + k * stride;
        seed_run(seed, prop, run); g_mode = 0; for (int i = 0; i < kStreams; ++i) g_shm->len[i] = 0;
        Result r = run_child(prop);
        if (r.outcome == INTERNAL) { fprintf(stderr, "INTERNAL run=%llu %s\n", (unsigned long long)run, g_shm->msg); rc = 2; break; }
        runs++; points += g_shm->points; switches += g_shm->switches; steps += g_shm->steps; simns += g_shm->simns; allocs += g_shm->allocs; if (g_shm->steps > maxsteps) maxsteps = g_shm->steps;
        foldhash ^= hmix(run, r.loghash);
        if (dump_hashes) printf("%llu %016llx\n", (unsigned long long)run, (unsigned long long)r.loghash);
        agg_add(agg);
        if (g_shm->nontriv) { nontriv++; u64 h = hmix(g_shm->schedhash, g_shm->mixhash); if (hf) fwrite(&h, 8, 1, hf); }
        if (r.outcome == VIOL) {
            if (!accepted(prop)) { others++; if (!otherinfo[0]) snprintf(otherinfo, sizeof otherinfo, "run %llu props=%s class=%s: %.120s", (unsigned long long)run, g_shm->props, g_shm->cls, g_shm->msg); continue; }
            // gate: the same choices must fail identically, twice
            static char cls[64]; copy_str(cls, g_shm->cls, sizeof cls); u64 lh = r.loghash; viol_run = run;
            for (int i = 0; i < kStreams; ++i) raw_len[i] = g_shm->len[i];
            Saved best = save();
            bool det = true;
            for (int t = 0; t < 2; ++t) { load(best); g_mode = 1; Result q = run_child(prop); if (q.outcome != VIOL || !str_eq(g_shm->cls, cls) || (q.loghash != lh && t == 1)) { det = false; fprintf(stderr, "NONDETERMINISTIC run=%llu: replay gives outcome=%d class=%s hash %016llx vs %s %016llx\n", (unsigned long long)run, q.outcome, g_shm->cls, (unsigned long long)q.loghash, cls, (unsigned long long)lh); } lh = q.loghash; }
            if (!det) { nondet = true; continue; }
            double s0 = nowd();
            shrink(best, prop, cls, shrink_limit);
            load(best); g_mode = 1; Result q1 = run_child(prop); bool ok1 = q1.outcome == VIOL && str_eq(g_shm->cls, cls);
            load(best); g_mode = 1; Result q2 = run_child(prop); bool ok2 = q2.outcome == VIOL && str_eq(g_shm->cls, cls) && q1.loghash == q2.loghash;
            shrink_s = nowd() - s0;
            if (!ok1 || !ok2) { fprintf(stderr, "NONDETERMINISTIC after shrinking run=%llu\n", (unsigned long long)run); nondet = true; continue; }
            char extra[200]; snprintf(extra, sizeof extra, "shrunk from %u/%u/%u choices to %u/%u/%u in %u tries", raw_len[0], raw_len[1], raw_len[2], best.len[0], best.len[1], best.len[2], g_shrink_tries);
            if (replay_out) write_replay(replay_out, prop, seed, run, best, extra);
            printf("FOUND property=%s run=%llu class=%s: %s\n", prop, (unsigned long long)run, g_shm->cls, g_shm->msg);
            rc = 1; break;
        }
    }
    if (hf) fclose(hf);
    if (nondet && rc == 0) rc = 2;
    printf("FOLD %016llx runs %llu\n", (unsigned long long)foldhash, (unsigned long long)runs);
    if (out) {
        FILE* f = fopen(out, "w");
        fprintf(f, "{\"runs\":%llu,\"points\":%llu,\"switches\":%llu,\"steps\":%llu,\"maxsteps\":%llu,\"simns\":%llu,\"allocs\":%llu,\"nontrivial\":%llu,\"others\":%llu,\"wall\":%.3f,\"rc\":%d,\"viol_run\":%llu,\"shrink_s\":%.2f,\"foldhash\":\"%016llx\",", (unsigned long long)runs, (unsigned long long)points, (unsigned long long)switches, (unsigned long long)steps, (unsigned long long)maxsteps, (unsigned long long)simns, (unsigned long long)allocs, (unsigned long long)nontriv, (unsigned long long)others, nowd() - t0, rc, (unsigned long long)viol_run, shrink_s, (unsigned long long)foldhash);
        fprintf(f, "\"otherinfo\":\""); for (const char* p = otherinfo; *p; ++p) if (*p == '"' || *p == '\\') fputc('\'', f); else if ((u8)*p >= 32) fputc(*p, f); fprintf(f, "\",");
        for (int kind = 0; kind < 2; ++kind) { fprintf(f, "\"%s\":{", kind ? "faults" : "probes"); bool first = true; for (u32 i = 0; i < agg.n; ++i) if ((int)agg.c[i].kind == kind) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", agg.c[i].name, (unsigned long long)agg.c[i].n); first = false; } fprintf(f, "}%s", kind ? "" : ","); }
        fprintf(f, "}\n"); fclose(f);
    }
    return rc;
}

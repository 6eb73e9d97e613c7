// Deterministic simulator runtime: public interface used by the harnesses.
// The runtime itself (simrt.cpp) is compiled WITHOUT instrumentation; harnesses and the code under test
// are compiled with -fsanitize=thread and call into it for every memory access, atomic, lock, allocation.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

constexpr int kMaxThreads = 6;
constexpr int kStreams = 3;
enum Stream { PROG = 0, SCHED = 1, FAULT = 2 };

// ---- choices: the only source of randomness. 0 is always the simplest alternative.
uint32_t choose(Stream s, uint32_t n);              // 0..n-1, recorded / replayed
inline bool chance(Stream s, uint32_t num, uint32_t den) { return choose(s, den) >= den - num; }

// ---- threads (thread 0 is the harness main)
int  spawn(void (*fn)(void*), void* arg);           // created parked; starts when scheduled
void join_all();
int  self();                                        // simulated thread id (0 if outside)
[[noreturn]] void park_forever();                    // user code that never returns: the other threads go on
void yield_point(int tag);                          // user-code boundary: a preemption point
bool in_sim();

// ---- history
struct Event { uint32_t seq; uint16_t tid; uint16_t kind; int32_t a, b, c, d; };
uint32_t rec(int kind, int a = 0, int b = 0, int c = 0, int d = 0); // returns its sequence number
uint32_t now();                                     // last sequence number
const Event* events(); uint32_t num_events();

// ---- verdicts
[[noreturn]] void violation(const char* props, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void finish_ok();                      // end this run early as "held"
void expect_terminate(bool on);                     // std::terminate/abort is the required outcome from now on
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // verbose replay only

// ---- measures
void probe(const char* literal);                    // "this rare condition was hit"
void fault_fired(const char* literal);              // count an injected fault
void nontrivial();                                  // this run is non-trivial by the harness's rule
void mix(uint64_t v);                               // contributes to the distinctness hash of this run
void sim_time(uint64_t ns);

// ---- harness scope: accesses ignored, allocations on the ordinary heap, no preemption, no faults
void harness_enter(); void harness_leave();
struct HarnessScope { HarnessScope() { harness_enter(); } ~HarnessScope() { harness_leave(); }
                      HarnessScope(const HarnessScope&) = delete; };
// the reverse: user code under test called back from inside a harness scope
int  harness_suspend(); void harness_resume(int);
struct SutScope { int n; SutScope() : n(harness_suspend()) {} ~SutScope() { harness_resume(n); } };

// ---- allocation faults (per simulated thread): the (k)th allocation from now fails; sticky: all from then on
void arm_alloc(uint32_t k /*1-based, 0=off*/, bool sticky);
uint32_t disarm_alloc();                            // returns how many failures fired since arming
uint32_t alloc_count();                             // allocations made by this thread since arming
uint64_t arena_live_bytes(); uint64_t arena_live_blocks(); uint64_t arena_peak_bytes(); void arena_reset_peak();
uint64_t arena_max_request(); void arena_reset_max_request();
void     set_alloc_cap(uint64_t bytes);             // single requests above this throw bad_alloc and are flagged
void     leak_check(const char* props);             // every arena block allocated since run start must be freed
uint64_t arena_mark(); uint32_t arena_lost_since(uint64_t mark) /* live blocks allocated since then that nothing static leads to */; void leak_check_since(uint64_t mark, const char* props);
void*    raw_alloc(size_t n); void raw_free(void*); // arena blocks without fault injection (guarded buffers)
void     set_alloc_points(bool on);                // every allocation of the code under test is a preemption point
bool     addressable(const void* p, size_t n);

// fatal classes (crash, deadlock, memory error...) are attributed to these properties as well
void set_fatal_props(const char* props);
void set_race_props(const char* props);
void set_step_budget(uint64_t steps);

// ---- harness definition
struct Harness { const char* name; void (*run)(const char* prop); void (*describe)(const Event&, char* buf, int n); };
extern const Harness harness;                       // defined by the harness TU
bool verbose();
} // namespace sim

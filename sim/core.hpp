// Deterministic simulator core: choice tape, event log, virtual clock,
// baton-passing scheduler over real threads, allocator seam, run executor.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// Every random decision of a run is one entry of the tape. choose(n) is in
// [0,n); 0 is by convention the simplest alternative (minimisation drives
// entries towards 0).
uint32_t choose(uint32_t n);
inline bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; } // 0 -> false
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint64_t bits64();
template <class C> auto &pick(C &c) { return c[choose((uint32_t)c.size())]; }
template <class T, size_t N> T &pick(T (&a)[N]) { return a[choose((uint32_t)N)]; }

// ---------------------------------------------------------------- log
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logx(const char *what, const std::string &bytes);       // escaped bytes, truncated in text, hashed in full
std::string esc(const std::string &bytes, size_t max = 160); // printable form
[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char *name, uint64_t n = 1);                // fault / probe counters ("fault.x", "probe.y")
[[noreturn]] void discard(const char *why);                  // run is not usable (e.g. tape overflow)

// ---------------------------------------------------------------- real code brackets
// Code under test runs inside Real; callbacks from it into the harness run
// inside Harness. Preemption, step accounting and allocation faults apply
// only inside Real.
extern thread_local int in_real;
struct Real { int saved; Real(); ~Real(); };
struct Harness { int saved; Harness() : saved(in_real) { in_real = 0; } ~Harness() { in_real = saved; } };
void set_step_limit(uint64_t n); // basic-block edges allowed per outermost Real section
uint64_t last_bulk();            // bytes moved, compared or searched by library calls in it
uint64_t steps_now();            // basic blocks executed so far in the current one
uint64_t last_steps();           // edges spent in the last outermost Real section of this thread

// ---------------------------------------------------------------- memory
enum AllocMode { ALLOC_OFF, ALLOC_ONCE, ALLOC_PERSIST };
void alloc_plan(AllocMode mode, uint64_t nth); // fail the nth (0-based) allocation made inside Real from now on
bool alloc_fired();
uint64_t alloc_count();                        // allocations made inside Real since alloc_plan
uint64_t alloc_seen();                         // ... between the last two calls of alloc_plan
void *shared_page();                           // memory shared with child processes
void acct_begin();                             // start tracking live allocations made inside Real
size_t acct_live();                            // live tracked allocations
size_t acct_bytes();
size_t acct_peak();                            // peak tracked bytes since acct_begin
size_t acct_total();                           // all tracked bytes ever allocated since acct_begin
void acct_end();
void heap_noise(bool on);                      // interleave extra allocations chosen from the tape, random fill
void step_hook(uint64_t at, void (*fn)());     // calls fn when the current Real section has executed `at` basic blocks
bool sanitizer_reported();

// ---------------------------------------------------------------- threads, time
uint64_t now();
void after(uint64_t delay, std::function<void()> fn);
int spawn(std::function<void()> fn);
void join_all();
void yield_point();
void block_until(std::function<bool()> cond);
void sleep_for(uint64_t t);
int self();
int nthreads();
void preemption(bool on); // default on
void at_switch(std::function<void()> fn); // called (in harness mode) whenever the baton moves

// ---------------------------------------------------------------- scenarios
struct Scenario { const char *name; void (*fn)(); };
void add_scenario(const char *name, void (*fn)());
struct Reg { Reg(const char *n, void (*f)()) { add_scenario(n, f); } };
#define SCENARIO(id) static void scen_##id(); static ::sim::Reg reg_##id(#id, scen_##id); static void scen_##id()

extern std::string workdir; // scratch directory of this worker

// child processes of a run (compiler simulation); returns wait status
int run_process(const std::function<void()> &body);
// ... several at a time: the caller hands the turn around (cc_world)
struct Proc { int pid = -1, go = -1, done = -1; };
Proc start_process(const std::function<void()> &body);
int end_process(const Proc &p);   // waits for its end
void note_switch(uint64_t who);   // part of the interleaving measure

int sim_main(int argc, char **argv);
} // namespace sim

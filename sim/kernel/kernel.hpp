// Deterministic simulation kernel: fibers, virtual time, seeded scheduler, event log.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

namespace sim
{
typedef uint64_t u64;
typedef int64_t i64;

struct Rng
{
  u64 s[2];
  explicit Rng(u64 seed = 1) { reseed(seed); }
  static u64 mix(u64 & x)
  {
    u64 z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  void reseed(u64 seed) { s[0] = mix(seed); s[1] = mix(seed); }
  u64 next()
  {
    u64 a = s[0], b = s[1], r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r;
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double range(double a, double b) { return a + (b - a) * u(); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int irange(int a, int b) { return a + static_cast<int>(below(static_cast<u64>(b - a + 1))); }
  bool p(double q) { return u() < q; }
  double gauss();
};

inline u64 hash_str(const std::string & s, u64 h = 1469598103934665603ULL)
{
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

const int MAXF = 24;           // fibers per run
const i64 NEVER = INT64_MAX;
const i64 MS = 1000000LL, SEC = 1000000000LL;

// ---- run control
enum Outcome { OK_RUN = 0, VIOLATION_RUN = 1, ERROR_RUN = 2 };
/** Ends the run (child process) reporting a violation found by the kernel or an oracle. */
[[noreturn]] void fail_run(const std::string & klass, const std::string & what);
/** Ends the run because the harness itself is broken. */
[[noreturn]] void harness_error(const std::string & what);
extern void (*on_fail)(const std::string & klass, const std::string & what);  // set by main; must not return

// ---- fibers & scheduling
void kernel_init(u64 seed);
bool active();                          // a run is in progress
int current();                          // fiber id (0 = driver)
int spawn(const char * name, void * (*fn)(void *), void * arg, int group);
i64 now();                              // virtual ns
void yield(int kind);                   // a scheduling point
void sleep_until(i64 t);
inline void sleep_for(i64 d) { sleep_until(now() + d); }
bool block_on(const void * obj, i64 deadline, const char * why);   // true = woken, false = deadline
void wake_all(const void * obj);
void wake_one(const void * obj);
void wait_quiescent();                  // driver only: until nobody else can run at this time
void kill_group(int g);                 // crash: fibers of g never run again
int group_of(int fiber);
void set_group(int g);                  // group inherited by new fibers of current fiber
bool group_done(int g);
bool fiber_done(int f);
const char * fiber_name(int f);
void stall(int fiber, i64 until);       // deschedule
void set_stalls(double p, int ms);       // random stalls from here on (randomly scheduled runs only)
void stop_stalls();                     // no more random stalls
i64 stall_end();                        // when the last random stall ends
int find_fiber(int group, int nth);     // nth fiber of a group (creation order), -1 if none
std::string blocked_report();
void hb_release(const void * obj);      // happens-before edges
void hb_acquire(const void * obj);
u64 steps();
u64 switches();
u64 sched_hash();                       // hash over the schedule only
struct NoPreempt { NoPreempt(); ~NoPreempt(); };   // harness code: no preemption, no checking
int nopreempt_depth();

// ---- schedule strategy
struct SchedCfg
{
  std::string kind = "block";           // block | rw | pct | explicit
  u64 seed = 1;
  double p_sync = 0.3;                  // rw: preempt at sync point
  double p_mem = 0.0;                   // rw: preempt at memory access (fine build)
  int depth = 3;                        // pct
  u64 horizon = 20000;                  // pct: expected number of steps
  double p_stall = 0;                   // rw, pct: the running thread is descheduled at a sync point ...
  int stall_ms = 100;                   // ... for up to this time
  std::vector<std::pair<u64, int>> dev; // explicit: (step, fiber), or (step, -ms): the running thread is descheduled
};
void set_schedule(const SchedCfg & c);
const std::vector<std::pair<u64, int>> & schedule_record();
// crash/shutdown hooks: call fn when the global step counter reaches step
void at_step(u64 step, void (*fn)());

// ---- event log
void log_event(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void log_bytes(const void * p, size_t n);      // hash only
u64 log_hash();
void set_log_text(bool on);
extern std::string log_text;

// ---- counters (faults injected, probes reached)
void count(const char * what, u64 n = 1);
std::map<std::string, u64> & counters();

// ---- randomness for the code under test
void set_random_seed(u64 seed);

// ---- memory
void arena_use(int which);              // 0 = parent arena, 1 = run arena
void arena_checks(bool on);             // quarantine + shadow (fine build)
struct MemStats { u64 accesses, races_checked; };
MemStats mem_stats();
extern const bool kFine;
extern bool races_fatal;                // fine build: an unordered pair of accesses ends the run
std::string stack_of_current();         // hex pcs

// ceres seams
struct SolveCtl { bool fail = false; i64 delay = 0; };
extern SolveCtl (*on_solve)(int phase, bool usable);     // phase 0 before, 1 after
}  // namespace sim

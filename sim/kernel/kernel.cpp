#include "kernel.hpp"
#include "arena.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals * __cxa_get_globals() noexcept; }

extern "C" void sim_switch(void ** save_sp, void * new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace sim
{
double Rng::gauss()
{
  double a = u(), b = u();
  if (a < 1e-300) a = 1e-300;
  return std::sqrt(-2.0 * std::log(a)) * std::cos(6.283185307179586 * b);
}

void (*on_fail)(const std::string &, const std::string &) = nullptr;
SolveCtl (*on_solve)(int, bool) = nullptr;
static bool g_failing = false;

[[noreturn]] void fail_run(const std::string & k, const std::string & w)
{
  if (!g_failing) { g_failing = true; if (on_fail) on_fail(k, w); }
  fprintf(stderr, "fail_run: %s: %s\n", k.c_str(), w.c_str());
  _exit(3);
}
[[noreturn]] void harness_error(const std::string & w)
{
  if (!g_failing) { g_failing = true; if (on_fail) on_fail("HARNESS", w); }
  fprintf(stderr, "harness error: %s\n", w.c_str());
  _exit(3);
}

enum St : uint8_t { Unused, Runnable, Blocked, Done, Killed };
struct Fiber
{
  St st; int id; int group; int child_group;
  char name[24];
  void * sp; char * stack;
  void * (*fn)(void *); void * arg;
  i64 wake; i64 stall_until;
  const void * obj; const char * why; bool woken; bool quiesce;
  int ignore;
  void * eh[2]; int err;
  int prio;
};
static Fiber F[MAXF];
static int nf = 0, cur = 0;
static bool g_active = false;
static i64 g_now = 0;
static u64 g_step = 0, g_switches = 0;
static SchedCfg cfg;
static Rng srng(1);
static std::vector<std::pair<u64, int>> rec;
static size_t dev_i = 0;
static u64 g_next_mem = ~0ULL;          // step at which a memory access becomes a decision
static std::vector<u64> pct_points;
static u64 g_sched_hash = 1469598103934665603ULL;
static u64 g_log_hash = 1469598103934665603ULL;
static bool g_log_text = false;
std::string log_text;
static u64 g_at_step = ~0ULL; static void (*g_at_fn)() = nullptr;
static u64 g_step_limit = 400ULL * 1000 * 1000;
static u64 g_sync_steps = 0;
static i64 g_stall_end = 0;
int g_held[MAXF];                       // mutexes held
static std::map<std::string, u64> g_counts;

const size_t STACK = 1 << 20;

bool active() { return g_active; }
int current() { return cur; }
i64 now() { return g_now; }
u64 steps() { return g_step; }
u64 switches() { return g_switches; }
u64 sched_hash() { return g_sched_hash; }
u64 log_hash() { return g_log_hash ^ (g_sched_hash * 3); }
int group_of(int f) { return F[f].group; }
void set_group(int g) { F[cur].child_group = g; }
const char * fiber_name(int f) { return F[f].name; }
bool fiber_done(int f) { return F[f].st == Done; }
std::map<std::string, u64> & counters() { return g_counts; }
void count(const char * w, u64 n) { g_counts[w] += n; }
void set_log_text(bool on) { g_log_text = on; }

NoPreempt::NoPreempt() { ++F[cur].ignore; }
NoPreempt::~NoPreempt() { --F[cur].ignore; }
int nopreempt_depth() { return F[cur].ignore; }

static inline void hmix(u64 & h, u64 v) { h = (h ^ v) * 1099511628211ULL; h ^= h >> 29; }
void log_bytes(const void * p, size_t n)
{
  const unsigned char * c = static_cast<const unsigned char *>(p);
  u64 v = 0;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { memcpy(&v, c + i, 8); hmix(g_log_hash, v); }
  v = n;
  for (; i < n; ++i) v = (v << 8) | c[i];
  hmix(g_log_hash, v);
}
void log_event(const char * fmt, ...)
{
  if (!g_active) return;
  char buf[512];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n >= static_cast<int>(sizeof buf)) n = sizeof buf - 1;
  log_bytes(buf, static_cast<size_t>(n));
  hmix(g_log_hash, static_cast<u64>(g_now));
  if (g_log_text)
  {
    char head[96];
    snprintf(head, sizeof head, "%11.6f %9llu %-10s ", g_now * 1e-9, static_cast<unsigned long long>(g_step), F[cur].name);
    log_text += head; log_text += buf; log_text += '\n';
  }
}

// ---------------------------------------------------------------- vector clocks
uint32_t g_vc[MAXF][MAXF];
struct SyncVC { const void * obj; uint32_t vc[MAXF]; };
static SyncVC * g_sync = nullptr; static size_t g_sync_cap = 0, g_sync_n = 0;
static SyncVC * sync_slot(const void * o, bool create)
{
  if (!g_sync)
  {
    g_sync_cap = 1 << 14;
    g_sync = static_cast<SyncVC *>(calloc(g_sync_cap, sizeof(SyncVC)));
  }
  size_t i = (reinterpret_cast<uintptr_t>(o) * 0x9e3779b97f4a7c15ULL) >> 40;
  for (size_t k = 0; k < g_sync_cap; ++k)
  {
    SyncVC & s = g_sync[(i + k) & (g_sync_cap - 1)];
    if (s.obj == o) return &s;
    if (!s.obj)
    {
      if (!create) return nullptr;
      if (++g_sync_n > g_sync_cap * 3 / 4)
      {
        size_t oc = g_sync_cap; SyncVC * old = g_sync;
        g_sync_cap *= 2; g_sync_n = 0;
        g_sync = static_cast<SyncVC *>(calloc(g_sync_cap, sizeof(SyncVC)));
        for (size_t j = 0; j < oc; ++j) if (old[j].obj) *sync_slot(old[j].obj, true) = old[j];
        free(old);
        return sync_slot(o, true);
      }
      s.obj = o;
      return &s;
    }
  }
  return nullptr;
}
void hb_release(const void * o)
{
  if (!kFine || !g_active) return;
  SyncVC * s = sync_slot(o, true);
  for (int i = 0; i < nf; ++i) if (g_vc[cur][i] > s->vc[i]) s->vc[i] = g_vc[cur][i];
  ++g_vc[cur][cur];
}
void hb_acquire(const void * o)
{
  if (!kFine || !g_active) return;
  SyncVC * s = sync_slot(o, false);
  if (!s) return;
  for (int i = 0; i < nf; ++i) if (s->vc[i] > g_vc[cur][i]) g_vc[cur][i] = s->vc[i];
}

// ---------------------------------------------------------------- scheduling
static void plan_next_mem()
{
  g_next_mem = ~0ULL;
  if (cfg.kind == "rw" && cfg.p_mem > 0)
  {
    double u = srng.u(); if (u < 1e-15) u = 1e-15;
    g_next_mem = g_step + 1 + static_cast<u64>(std::log(u) / std::log1p(-cfg.p_mem));
  }
  else if (cfg.kind == "pct")
  {
    if (!pct_points.empty()) g_next_mem = pct_points.back();
  }
  else if (cfg.kind == "explicit")
  {
    while (dev_i < cfg.dev.size() && cfg.dev[dev_i].first <= g_step) ++dev_i;
    if (dev_i < cfg.dev.size()) g_next_mem = cfg.dev[dev_i].first;
  }
  if (g_at_step < g_next_mem) g_next_mem = g_at_step;
}

void set_schedule(const SchedCfg & c)
{
  cfg = c; srng.reseed(c.seed * 2654435761ULL + 17);
  rec.clear(); dev_i = 0; pct_points.clear();
  for (int i = 0; i < MAXF; ++i) F[i].prio = static_cast<int>(srng.below(1000)) + 1000;
  if (c.kind == "pct")
  {
    for (int i = 0; i < c.depth; ++i) pct_points.push_back(1 + srng.below(c.horizon ? c.horizon : 1));
    // descending so that back() is the next one
    for (size_t i = 0; i < pct_points.size(); ++i)
      for (size_t j = i + 1; j < pct_points.size(); ++j)
        if (pct_points[j] > pct_points[i]) std::swap(pct_points[i], pct_points[j]);
  }
  plan_next_mem();
}
const std::vector<std::pair<u64, int>> & schedule_record() { return rec; }
void at_step(u64 s, void (*fn)()) { g_at_step = s; g_at_fn = fn; plan_next_mem(); }

static bool runnable(const Fiber & f) { return f.st == Runnable && f.stall_until <= g_now; }

static void switch_to(int t)
{
  if (t == cur) return;
  int from = cur;
  ++g_switches;
  hmix(g_sched_hash, g_step * 31 + static_cast<u64>(t));
  void ** g = reinterpret_cast<void **>(__cxxabiv1::__cxa_get_globals());
  F[from].eh[0] = g[0]; F[from].eh[1] = g[1]; F[from].err = errno;
  cur = t;
  g[0] = F[t].eh[0]; g[1] = F[t].eh[1];
  sim_switch(&F[from].sp, F[t].sp);
  errno = F[cur].err;
}

static int default_choice(const int * R, int n)
{
  for (int i = 0; i < n; ++i) if (R[i] > cur) return R[i];
  return R[0];
}

/** Pick the next fiber; the current one may or may not be runnable. Returns when current runs again. */
static void reschedule(bool at_mem)
{
  if (g_step >= g_at_step)
  {
    g_at_step = ~0ULL;
    void (*fn)() = g_at_fn; g_at_fn = nullptr;
    if (fn) fn();
  }
  if (g_step > g_step_limit || g_sync_steps > 6000000)
    fail_run("livelock", "no progress within the step limit: " + blocked_report());
  // a thread may be descheduled for a while at any synchronisation
  if (cfg.kind == "explicit")
  {
    while (dev_i < cfg.dev.size() && cfg.dev[dev_i].first < g_step) ++dev_i;
    if (dev_i < cfg.dev.size() && cfg.dev[dev_i].first == g_step && cfg.dev[dev_i].second < 0)
    {
      if (cur != 0) { F[cur].stall_until = g_now - static_cast<i64>(cfg.dev[dev_i].second) * 1000000; g_stall_end = std::max(g_stall_end, F[cur].stall_until); count("fault_thread_stalled_at_sync"); }
      ++dev_i;
    }
  }
  else if (cfg.p_stall > 0 && !at_mem && cur != 0 && F[cur].st != Killed && F[cur].st != Done && srng.p(g_held[cur] > 0 ? std::min(0.3, cfg.p_stall * 8) : cfg.p_stall))
  {
    int ms = 1 + static_cast<int>(std::pow(srng.u(), 3) * cfg.stall_ms);
    F[cur].stall_until = g_now + ms * 1000000LL;
    g_stall_end = std::max(g_stall_end, F[cur].stall_until);
    rec.push_back(std::make_pair(g_step, -ms));
    count("fault_thread_stalled_at_sync");
  }
  int R[MAXF]; int n;
  for (;;)
  {
    n = 0;
    for (int i = 0; i < nf; ++i) if (runnable(F[i])) R[n++] = i;
    if (n) break;
    if (F[0].st == Blocked && F[0].quiesce) { F[0].st = Runnable; F[0].quiesce = false; continue; }
    i64 t = NEVER;
    for (int i = 0; i < nf; ++i)
    {
      if (F[i].st == Blocked) { i64 w = F[i].wake; if (w != NEVER && w < F[i].stall_until) w = F[i].stall_until; if (w < t) t = w; }
      else if (F[i].st == Runnable && F[i].stall_until < t) t = F[i].stall_until;
    }
    if (t == NEVER) fail_run("deadlock", "nothing can ever run again: " + blocked_report());
    if (t > g_now) g_now = t;
    for (int i = 0; i < nf; ++i)
      if (F[i].st == Blocked && F[i].wake <= g_now && F[i].stall_until <= g_now)
      {
        F[i].st = Runnable; F[i].woken = false; F[i].obj = nullptr; F[i].quiesce = false;
      }
  }
  int pick;
  bool cur_ok = runnable(F[cur]);
  int dflt = cur_ok ? cur : default_choice(R, n);
  if (n == 1) pick = R[0];
  else if (cfg.kind == "explicit")
  {
    pick = dflt;
    while (dev_i < cfg.dev.size() && cfg.dev[dev_i].first < g_step) ++dev_i;
    if (dev_i < cfg.dev.size() && cfg.dev[dev_i].first == g_step)
    {
      int w = cfg.dev[dev_i].second;
      ++dev_i;
      if (w >= 0 && w < nf && runnable(F[w])) pick = w;
    }
  }
  else if (cfg.kind == "rw")
  {
    bool preempt = !cur_ok || at_mem || srng.p(cfg.p_sync);
    pick = preempt ? R[srng.below(static_cast<u64>(n))] : cur;
  }
  else if (cfg.kind == "pct")
  {
    while (!pct_points.empty() && pct_points.back() <= g_step)
    {
      pct_points.pop_back();
      F[cur].prio = static_cast<int>(pct_points.size());
    }
    pick = R[0];
    for (int i = 1; i < n; ++i) if (F[R[i]].prio > F[pick].prio) pick = R[i];
  }
  else pick = cur_ok ? cur : R[srng.below(static_cast<u64>(n))];
  if (n > 1 && pick != dflt) rec.push_back(std::make_pair(g_step, pick));
  if (cfg.kind == "explicit" || g_step >= g_next_mem) plan_next_mem();
  switch_to(pick);
}

void yield(int kind)
{
  (void)kind;
  if (!g_active) return;
  ++g_step; ++g_sync_steps;
  reschedule(false);
}

// fast path used by instrumented memory accesses
void mem_point()
{
  if (++g_step < g_next_mem) return;
  reschedule(true);
  if (g_step >= g_next_mem) plan_next_mem();
}

bool block_on(const void * obj, i64 deadline, const char * why)
{
  Fiber & f = F[cur];
  ++g_step; ++g_sync_steps;
  f.obj = obj; f.wake = deadline; f.why = why; f.woken = false; f.st = Blocked;
  reschedule(false);
  f.obj = nullptr; f.wake = NEVER;
  return f.woken;
}
void wake_all(const void * obj)
{
  for (int i = 0; i < nf; ++i)
    if (F[i].st == Blocked && F[i].obj == obj && obj) { F[i].st = Runnable; F[i].woken = true; F[i].obj = nullptr; }
}
void wake_one(const void * obj)
{
  int W[MAXF], n = 0;
  for (int i = 0; i < nf; ++i) if (F[i].st == Blocked && F[i].obj == obj && obj) W[n++] = i;
  if (!n) return;
  int w = W[0];
  F[w].st = Runnable; F[w].woken = true; F[w].obj = nullptr;
}
void sleep_until(i64 t)
{
  if (t <= g_now) { yield(0); return; }
  block_on(nullptr, t, "sleeping");
}
void wait_quiescent()
{
  Fiber & f = F[0];
  if (cur != 0) harness_error("wait_quiescent outside the driver");
  ++g_step; ++g_sync_steps;
  f.obj = nullptr; f.wake = NEVER; f.why = "quiescence"; f.quiesce = true; f.st = Blocked;
  reschedule(false);
  g_sync_steps = 0;
}
void kill_group(int g)
{
  for (int i = 0; i < nf; ++i) if (F[i].group == g && F[i].st != Done) F[i].st = Killed;
  if (F[cur].st == Killed) { ++g_step; reschedule(false); harness_error("killed fiber resumed"); }
}
bool group_done(int g)
{
  for (int i = 0; i < nf; ++i) if (F[i].group == g && F[i].st != Done && F[i].st != Killed) return false;
  return true;
}
int find_fiber(int g, int nth)
{
  for (int i = 0; i < nf; ++i) if (F[i].group == g && nth-- == 0) return i;
  return -1;
}
void set_stalls(double p, int ms) { if (cfg.kind == "rw" || cfg.kind == "pct") { cfg.p_stall = p; cfg.stall_ms = ms; } }
void stop_stalls() { cfg.p_stall = 0; }
i64 stall_end() { return g_stall_end; }
void stall(int f, i64 until) { if (f >= 0 && f < nf) F[f].stall_until = until; }

std::string blocked_report()
{
  std::string r;
  char b[160];
  for (int i = 0; i < nf; ++i)
  {
    if (F[i].st == Done || F[i].st == Killed || F[i].st == Unused) continue;
    snprintf(b, sizeof b, "%s[%s%s%s] ", F[i].name, F[i].st == Runnable ? "runnable" : "blocked: ",
             F[i].st == Runnable ? "" : (F[i].why ? F[i].why : "?"), F[i].stall_until > g_now ? ", stalled" : "");
    r += b;
  }
  return r;
}

std::string exception_text()
{
  std::exception_ptr p = std::current_exception();
  if (!p) return "unknown";
  try { std::rethrow_exception(p); }
  catch (const std::exception & e) { return std::string(abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, nullptr)) + ": " + e.what(); }
  catch (...) { return "non-std exception"; }
}

static void fiber_main()
{
  Fiber & f = F[cur];
  try { f.fn(f.arg); }
  catch (...)
  {
    fail_run("exception", std::string("exception left thread ") + f.name + ": " + exception_text());
  }
  hb_release(&F[cur]);
  f.st = Done;
  wake_all(&f);
  ++g_step; ++g_sync_steps;
  reschedule(false);
  harness_error("finished fiber resumed");
}

int spawn(const char * name, void * (*fn)(void *), void * arg, int group)
{
  if (nf >= MAXF) harness_error("too many fibers");
  Fiber & f = F[nf];
  memset(static_cast<void *>(&f), 0, sizeof f);
  f.id = nf; f.st = Runnable; f.fn = fn; f.arg = arg; f.group = f.child_group = group;
  f.wake = NEVER; f.prio = static_cast<int>(srng.below(1000)) + 1000;
  snprintf(f.name, sizeof f.name, "%s", name);
  char * want = reinterpret_cast<char *>(0x140000000000ULL) + static_cast<size_t>(nf) * (STACK * 2);
  char * m = static_cast<char *>(mmap(want, STACK + 4096, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0));
  if (m != want) harness_error("stack mmap");
  mprotect(m, 4096, PROT_NONE);
  f.stack = m;
  u64 * sp = reinterpret_cast<u64 *>(m + STACK + 4096);
  // initial frame: [mxcsr/fpucw][r15 r14 r13 r12 rbx rbp][ret]; at entry rsp % 16 must be 8
  *--sp = 0; *--sp = 0; *--sp = 0;
  *--sp = reinterpret_cast<u64>(reinterpret_cast<void *>(&fiber_main));
  for (int i = 0; i < 6; ++i) *--sp = 0;
  *--sp = 0x0000037f00001f80ULL;
  f.sp = sp;
  int id = nf++;
  for (int i = 0; i < MAXF; ++i) g_vc[id][i] = g_vc[cur][i];
  g_vc[id][id] = 1;
  ++g_vc[cur][cur];
  return id;
}
int child_group() { return F[cur].child_group; }
void join_fiber(int id)
{
  while (F[id].st != Done) block_on(&F[id], NEVER, "joining a thread");
  hb_acquire(&F[id]);
}
bool in_own_stack(uintptr_t a)
{
  uintptr_t s = reinterpret_cast<uintptr_t>(F[cur].stack);
  return cur ? (a - s < STACK + 4096) : false;
}

void kernel_init(u64 seed)
{
  memset(static_cast<void *>(F), 0, sizeof F);
  nf = 1; cur = 0;
  F[0].st = Runnable; F[0].wake = NEVER; snprintf(F[0].name, sizeof F[0].name, "driver");
  memset(g_vc, 0, sizeof g_vc);
  g_vc[0][0] = 1;
  g_now = 1000 * SEC;
  g_step = g_switches = g_sync_steps = 0;
  g_counts.clear();
  g_active = true;
  (void)seed;
}
}  // namespace sim

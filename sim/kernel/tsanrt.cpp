// Runtime behind -fsanitize=thread instrumentation of the code under test (fine build only):
// preemption points, happens-before race detection, heap bounds / use-after-free.
#include "kernel.hpp"
#include "arena.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unordered_map>

namespace sim
{
extern uint32_t g_vc[MAXF][MAXF];
void mem_point();
bool in_own_stack(uintptr_t a);

#ifndef SIM_FINE
void shadow_reset(const void *, size_t) {}
void mem_free_check(const void *, size_t) {}
MemStats mem_stats() { return MemStats{0, 0}; }
std::string stack_of_current() { return ""; }
#else
struct Cell
{
  uint32_t wclk; uint8_t wtid1; uint8_t split; uint16_t wmask;   // wtid1 = tid + 1
  uint32_t wpc;
  struct { uint32_t clk; uint32_t pc; uint8_t tid1; } r[3];
};
// 8 + 4 + 3*12 = 48 bytes
static_assert(sizeof(Cell) <= 56, "cell");
static Cell * g_cells = nullptr;
static const size_t CELLS = ARENA_SIZE / 8;
// globals of the executable (non-PIE): .data/.bss
extern "C" char __data_start, _end;
static std::unordered_map<uintptr_t, Cell> * g_global = nullptr;   // cells of globals
static std::unordered_map<uintptr_t, Cell> * g_bytes = nullptr;    // per-byte cells of split granules
static MemStats st;
static bool g_in = false;

struct PcStack { uint32_t pc[128]; int n; };
static PcStack g_pcs[MAXF];
static inline uint32_t pc32(void * p) { return static_cast<uint32_t>(reinterpret_cast<uintptr_t>(p)); }

static void ensure()
{
  if (g_cells) return;
  void * want = reinterpret_cast<void *>(RACE_BASE);
  void * p = mmap(want, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != want) harness_error("race shadow mmap");
  g_cells = static_cast<Cell *>(p);
  g_global = new std::unordered_map<uintptr_t, Cell>();
  g_bytes = new std::unordered_map<uintptr_t, Cell>();
}

MemStats mem_stats() { return st; }
std::string stack_of_current()
{
  std::string r; char b[16];
  PcStack & s = g_pcs[current()];
  for (int i = (s.n > 128 ? 128 : s.n) - 1; i >= 0 && i > s.n - 12; --i) { snprintf(b, sizeof b, "0x%x ", s.pc[i]); r += b; }
  return r;
}

void shadow_reset(const void * p, size_t n)
{
  if (!g_cells) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  Cell * c = g_cells + (a - ARENA_BASE) / 8;
  size_t k = (n + 7) / 8;
  for (size_t i = 0; i < k; ++i)
  {
    if (c[i].split) for (uintptr_t b = 0; b < 8; ++b) g_bytes->erase(((a & ~uintptr_t(7)) + i * 8) + b);
    if (c[i].wtid1 || c[i].r[0].tid1 || c[i].split) memset(&c[i], 0, sizeof(Cell));
  }
}

static void report_race(uintptr_t a, bool w, int otid, bool ow, uint32_t opc, uint32_t pc)
{
  if (!races_fatal) { count("unordered_accesses"); return; }
  char d[160], b[512];
  arena_describe(a, d, sizeof d);
  snprintf(b, sizeof b, "data race: %s by %s [pc 0x%x] and earlier %s by %s [pc 0x%x] are not ordered (%s) stack: ",
           w ? "write" : "read", fiber_name(current()), pc, ow ? "write" : "read", fiber_name(otid), opc, d);
  fail_run("race", std::string(b) + stack_of_current());
}

static inline void check_cell(Cell & c, uintptr_t a, bool w, uint32_t pc)
{
  int me = current();
  const uint32_t * vc = g_vc[me];
  if (c.wtid1 && c.wtid1 != me + 1 && c.wclk > vc[c.wtid1 - 1]) report_race(a, w, c.wtid1 - 1, true, c.wpc, pc);
  if (w)
  {
    for (auto & r : c.r)
    {
      if (!r.tid1) break;
      if (r.tid1 != me + 1 && r.clk > vc[r.tid1 - 1]) report_race(a, w, r.tid1 - 1, false, r.pc, pc);
    }
    c.wtid1 = static_cast<uint8_t>(me + 1); c.wclk = vc[me]; c.wpc = pc;
    c.r[0].tid1 = c.r[1].tid1 = c.r[2].tid1 = 0;
  }
  else
  {
    int slot = -1;
    for (int i = 0; i < 3; ++i)
    {
      if (c.r[i].tid1 == me + 1 || !c.r[i].tid1) { slot = i; break; }
      // an entry already ordered before us is subsumed
      if (slot < 0 && c.r[i].clk <= vc[c.r[i].tid1 - 1]) slot = i;
    }
    if (slot < 0) slot = static_cast<int>((a >> 3) % 3);
    c.r[slot].tid1 = static_cast<uint8_t>(me + 1); c.r[slot].clk = vc[me]; c.r[slot].pc = pc;
  }
}

static void granule(Cell & c, uintptr_t g, unsigned mask, bool w, uint32_t pc)
{
  if (!c.split)
  {
    if (!c.wtid1 && !c.r[0].tid1) { c.wmask = static_cast<uint16_t>(mask); check_cell(c, g, w, pc); return; }
    if (c.wmask == mask) { check_cell(c, g, w, pc); return; }
    // different byte sets: go to per-byte cells
    for (unsigned b = 0; b < 8; ++b) if (c.wmask & (1u << b)) { Cell & n = (*g_bytes)[g + b]; n = c; n.split = 0; }
    c.split = 1;
  }
  for (unsigned b = 0; b < 8; ++b) if (mask & (1u << b)) check_cell((*g_bytes)[g + b], g + b, w, pc);
}

static void bad_access(uintptr_t a, size_t n, bool w, uint32_t pc)
{
  char d[160], b[400];
  arena_describe(a, d, sizeof d);
  snprintf(b, sizeof b, "%s of %zu bytes outside live heap memory [pc 0x%x]: %s; stack: ", w ? "write" : "read", n, pc, d);
  fail_run("memory", std::string(b) + stack_of_current());
}

static inline void bounds(uintptr_t a, size_t n, bool w, uint32_t pc)
{
  // every byte must be addressable
  size_t off = a - ARENA_BASE;
  size_t i = off >> 3, e = (off + n - 1) >> 3;
  if (off + n > ARENA_SIZE) { bad_access(a, n, w, pc); return; }
  for (; i <= e; ++i)
  {
    uint8_t s = g_shadow[i];
    if (s == 8) continue;
    size_t last = (i == e) ? ((off + n - 1) & 7) : 7;
    if (last >= s) bad_access(a, n, w, pc);
  }
}

static void access(uintptr_t a, size_t n, bool w, void * caller)
{
  if (!active() || g_in || current() == 0 || n == 0) return;
  if (in_own_stack(a)) return;
  if (nopreempt_depth()) return;
  uint32_t pc = pc32(caller);
  mem_point();
  ++st.accesses;
  if (in_arena(a))
  {
    g_in = true;
    bounds(a, n, w, pc);
    ensure();
    uintptr_t end = a + n;
    for (uintptr_t g = a & ~uintptr_t(7); g < end; g += 8)
    {
      unsigned mask = 0xff;
      if (g < a) mask &= 0xffu << (a - g);
      if (g + 8 > end) mask &= 0xffu >> (g + 8 - end);
      granule(g_cells[(g - ARENA_BASE) >> 3], g, mask & 0xff, w, pc);
      ++st.races_checked;
    }
    g_in = false;
  }
  else if (a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end))
  {
    g_in = true;
    ensure();
    uintptr_t end = a + n;
    for (uintptr_t g = a & ~uintptr_t(7); g < end; g += 8)
    {
      unsigned mask = 0xff;
      if (g < a) mask &= 0xffu << (a - g);
      if (g + 8 > end) mask &= 0xffu >> (g + 8 - end);
      granule((*g_global)[g], g, mask & 0xff, w, pc);
    }
    g_in = false;
  }
}

void mem_free_check(const void * p, size_t n)
{
  if (!active() || g_in || current() == 0 || !n || nopreempt_depth()) return;
  g_in = true;
  ensure();
  uintptr_t a = reinterpret_cast<uintptr_t>(p), end = a + n;
  PcStack & s = g_pcs[current()];
  uint32_t pc = s.n ? s.pc[(s.n > 128 ? 128 : s.n) - 1] : 0;
  for (uintptr_t g = a & ~uintptr_t(7); g < end; g += 8)
  {
    Cell & c = g_cells[(g - ARENA_BASE) >> 3];
    if (!c.split && !c.wtid1 && !c.r[0].tid1) continue;
    if (c.split) { for (unsigned b = 0; b < 8; ++b) { auto it = g_bytes->find(g + b); if (it != g_bytes->end()) check_cell(it->second, g + b, true, pc); } }
    else check_cell(c, g, true, pc);
  }
  g_in = false;
}
#endif
}  // namespace sim

#ifdef SIM_FINE
using namespace sim;
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void * pc)
{
  if (!active()) return;
  PcStack & s = g_pcs[current()];
  if (s.n < 128) s.pc[s.n] = pc32(pc);
  ++s.n;
}
void __tsan_func_exit()
{
  if (!active()) return;
  PcStack & s = g_pcs[current()];
  if (s.n > 0) --s.n;
}
#define RW(N) \
  void __tsan_read##N(void * a) { access(reinterpret_cast<uintptr_t>(a), N, false, RA); } \
  void __tsan_write##N(void * a) { access(reinterpret_cast<uintptr_t>(a), N, true, RA); } \
  void __tsan_volatile_read##N(void * a) { access(reinterpret_cast<uintptr_t>(a), N, false, RA); } \
  void __tsan_volatile_write##N(void * a) { access(reinterpret_cast<uintptr_t>(a), N, true, RA); } \
  void __tsan_unaligned_read##N(void * a) { access(reinterpret_cast<uintptr_t>(a), N, false, RA); } \
  void __tsan_unaligned_write##N(void * a) { access(reinterpret_cast<uintptr_t>(a), N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * a, size_t n) { access(reinterpret_cast<uintptr_t>(a), n, false, RA); }
void __tsan_write_range(void * a, size_t n) { access(reinterpret_cast<uintptr_t>(a), n, true, RA); }
void __tsan_vptr_update(void ** a, void *) { access(reinterpret_cast<uintptr_t>(a), 8, true, RA); }
void __tsan_vptr_read(void ** a) { access(reinterpret_cast<uintptr_t>(a), 8, false, RA); }
void * sim_memcpy(void * d, const void * s, size_t n)
{
  if (n) { access(reinterpret_cast<uintptr_t>(s), n, false, RA); access(reinterpret_cast<uintptr_t>(d), n, true, RA); }
  return memcpy(d, s, n);
}
void * sim_memmove(void * d, const void * s, size_t n)
{
  if (n) { access(reinterpret_cast<uintptr_t>(s), n, false, RA); access(reinterpret_cast<uintptr_t>(d), n, true, RA); }
  return memmove(d, s, n);
}
void * sim_memset(void * d, int c, size_t n)
{
  if (n) access(reinterpret_cast<uintptr_t>(d), n, true, RA);
  return memset(d, c, n);
}
}
// atomics: an access that is never a race, a scheduling point, and an HB edge by memory order
static inline void apre(const volatile void * a, size_t n, int mo, bool store)
{
  if (!active() || current() == 0) return;
  uintptr_t u = reinterpret_cast<uintptr_t>(a);
  if (nopreempt_depth()) return;
  mem_point();
  if (in_arena(u)) bounds(u, n, store, pc32(RA));
  (void)mo;
}
static inline void acq(const volatile void * a, int mo)
{
  if (active() && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) hb_acquire(const_cast<const void *>(a));
}
static inline void rel(const volatile void * a, int mo)
{
  if (active() && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) hb_release(const_cast<const void *>(a));
}
extern "C" {
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T * a, int mo) { apre(a, sizeof(T), mo, false); T v = *a; acq(a, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T * a, T v, int mo) { apre(a, sizeof(T), mo, true); rel(a, mo); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T * a, T v, int mo) { apre(a, sizeof(T), mo, true); acq(a, mo); rel(a, mo); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int mo) { apre(a, sizeof(T), mo, true); acq(a, mo); rel(a, mo); T o = *a; *a = static_cast<T>(o + v); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int mo) { apre(a, sizeof(T), mo, true); acq(a, mo); rel(a, mo); T o = *a; *a = static_cast<T>(o - v); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int mo) { apre(a, sizeof(T), mo, true); acq(a, mo); rel(a, mo); T o = *a; *a = static_cast<T>(o & v); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int mo) { apre(a, sizeof(T), mo, true); acq(a, mo); rel(a, mo); T o = *a; *a = static_cast<T>(o | v); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int mo) { apre(a, sizeof(T), mo, true); acq(a, mo); rel(a, mo); T o = *a; *a = static_cast<T>(o ^ v); return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T * a, T v, int mo) { apre(a, sizeof(T), mo, true); acq(a, mo); rel(a, mo); T o = *a; *a = static_cast<T>(~(o & v)); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int fmo) \
  { apre(a, sizeof(T), mo, true); T o = *a; if (o == *c) { acq(a, mo); rel(a, mo); *a = v; return 1; } acq(a, fmo); *c = o; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int fmo) \
  { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T c, T v, int mo, int fmo) \
  { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
static char g_fence;
void __tsan_atomic_thread_fence(int mo) { if (active() && current()) { acq(&g_fence, mo); rel(&g_fence, mo); } }
void __tsan_atomic_signal_fence(int) {}
}
#endif

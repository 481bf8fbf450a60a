// libc / libstdc++ symbols through which the code under test reaches threads, time and randomness.
#include "kernel.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <random>

using namespace sim;
namespace sim
{
int child_group();
void join_fiber(int id);
static Rng g_rand(7);
void set_random_seed(u64 s) { g_rand.reseed(s ^ 0x5eed); }
const i64 EPOCH = 1700000000LL * SEC;    // what the real-time clock reads at simulated time 0
i64 clock_skew = 0;                      // injected jump of the real-time clock
static i64 ts_ns(const struct timespec * t) { return t->tv_sec * SEC + t->tv_nsec; }
static i64 abs_deadline(int clk, const struct timespec * t)
{
  i64 d = ts_ns(t);
  if (clk == CLOCK_REALTIME) d -= EPOCH + clock_skew;
  return d < 0 ? 0 : d;
}

// in-place layouts (zero = initial state, as the static initialisers give)
struct Mx { uint32_t owner1; uint32_t depth; uint32_t pad[2]; int kind; };
extern int g_held[];
static int mx_lock(Mx * m, i64 deadline, bool try_only)
{
  uint32_t me = static_cast<uint32_t>(current()) + 1;
  if (!active()) { m->owner1 = me; ++m->depth; return 0; }
  yield(1);
  if (m->owner1 == me)
  {
    if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++m->depth; return 0; }
    if (try_only) return EBUSY;
    if (deadline == NEVER) fail_run("deadlock", std::string(fiber_name(current())) + " locks a mutex it already holds; stack: " + stack_of_current());
  }
  while (m->owner1)
  {
    if (try_only) return EBUSY;
    // cycle?
    if (!block_on(m, deadline, "waiting for a mutex") && deadline != NEVER && now() >= deadline) return ETIMEDOUT;
  }
  m->owner1 = me; m->depth = 1; ++g_held[me - 1];
  hb_acquire(m);
  return 0;
}
static int mx_unlock(Mx * m)
{
  if (!active()) { if (m->depth && --m->depth == 0) m->owner1 = 0; return 0; }
  if (m->owner1 != static_cast<uint32_t>(current()) + 1)
    fail_run("lock", "mutex unlocked by a thread that does not hold it; stack: " + stack_of_current());
  if (--m->depth) return 0;
  m->owner1 = 0; --g_held[current()];
  hb_release(m);
  wake_all(m);
  yield(2);
  return 0;
}
struct Rw { uint32_t readers; uint32_t writer1; };
struct Cv { uint32_t seq; };
struct Sem { uint32_t n; };
}  // namespace sim

#define MX(m) reinterpret_cast<Mx *>(m)
extern "C" {
int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
  memset(m, 0, sizeof *m);
  int k = 0;
  if (a) pthread_mutexattr_gettype(a, &k);
  MX(m)->kind = k;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t * m) { return mx_lock(MX(m), NEVER, false); }
int pthread_mutex_trylock(pthread_mutex_t * m) { return mx_lock(MX(m), NEVER, true); }
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * t) { return mx_lock(MX(m), abs_deadline(CLOCK_REALTIME, t), false); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * t) { return mx_lock(MX(m), abs_deadline(c, t), false); }
int pthread_mutex_unlock(pthread_mutex_t * m) { return mx_unlock(MX(m)); }

int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_signal(pthread_cond_t * c) { if (active()) { wake_one(c); yield(3); } return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) { if (active()) { wake_all(c); yield(3); } return 0; }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (!active()) return 0;
  // release and block atomically
  Mx * x = MX(m);
  if (x->owner1 != static_cast<uint32_t>(current()) + 1) fail_run("lock", "condition wait without holding the mutex");
  x->owner1 = 0; x->depth = 0; --g_held[current()]; hb_release(x); wake_all(x);
  block_on(c, NEVER, "waiting for a condition");
  mx_lock(x, NEVER, false);
  return 0;
}
static int cv_timed(pthread_cond_t * c, pthread_mutex_t * m, i64 d)
{
  if (!active()) return ETIMEDOUT;
  Mx * x = MX(m);
  if (x->owner1 != static_cast<uint32_t>(current()) + 1) fail_run("lock", "condition wait without holding the mutex");
  x->owner1 = 0; x->depth = 0; --g_held[current()]; hb_release(x); wake_all(x);
  bool w = block_on(c, d, "waiting for a condition");
  mx_lock(x, NEVER, false);
  return w ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) { return cv_timed(c, m, abs_deadline(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) { return cv_timed(c, m, abs_deadline(k, t)); }

#define RWL(l) reinterpret_cast<Rw *>(l)
int pthread_rwlock_init(pthread_rwlock_t * l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
static int rd(Rw * l, i64 d, bool tr)
{
  if (!active()) { ++l->readers; return 0; }
  yield(4);
  while (l->writer1)
  {
    if (tr) return EBUSY;
    if (l->writer1 == static_cast<uint32_t>(current()) + 1 && d == NEVER) fail_run("deadlock", "read-locks a lock it holds for writing");
    if (!block_on(l, d, "waiting for a shared lock") && d != NEVER && now() >= d) return ETIMEDOUT;
  }
  ++l->readers; hb_acquire(l);
  return 0;
}
static int wr(Rw * l, i64 d, bool tr)
{
  if (!active()) { l->writer1 = 1; return 0; }
  yield(4);
  while (l->writer1 || l->readers)
  {
    if (tr) return EBUSY;
    if (!block_on(l, d, "waiting for an exclusive lock") && d != NEVER && now() >= d) return ETIMEDOUT;
  }
  l->writer1 = static_cast<uint32_t>(current()) + 1; hb_acquire(l); hb_acquire(&l->writer1);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * l) { return rd(RWL(l), NEVER, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) { return rd(RWL(l), NEVER, true); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t * l, clockid_t c, const struct timespec * t) { return rd(RWL(l), abs_deadline(c, t), false); }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) { return wr(RWL(l), NEVER, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) { return wr(RWL(l), NEVER, true); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t * l, clockid_t c, const struct timespec * t) { return wr(RWL(l), abs_deadline(c, t), false); }
int pthread_rwlock_unlock(pthread_rwlock_t * p)
{
  Rw * l = RWL(p);
  if (l->writer1) { l->writer1 = 0; hb_release(l); }
  else if (l->readers) { --l->readers; hb_release(&l->writer1); }
  if (active()) { wake_all(l); yield(5); }
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t * l)
{
  while (*l) { if (!active()) break; block_on(const_cast<const int *>(l), NEVER, "waiting for a spin lock"); }
  *l = 1; hb_acquire(const_cast<const int *>(l)); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t * l) { *l = 0; hb_release(const_cast<const int *>(l)); if (active()) { wake_all(const_cast<const int *>(l)); yield(5); } return 0; }

int pthread_once(pthread_once_t * o, void (*fn)(void))
{
  volatile int * s = reinterpret_cast<volatile int *>(o);
  for (;;)
  {
    if (*s == 2) { hb_acquire(const_cast<const int *>(s)); return 0; }
    if (*s == 0) break;
    if (!active()) break;
    block_on(const_cast<const int *>(s), NEVER, "waiting for one-time initialisation");
  }
  *s = 1;
  try { fn(); } catch (...) { *s = 0; if (active()) wake_all(const_cast<const int *>(s)); throw; }
  *s = 2;
  hb_release(const_cast<const int *>(s));
  if (active()) wake_all(const_cast<const int *>(s));
  return 0;
}
int __cxa_guard_acquire(uint64_t * gp)
{
  volatile unsigned char * g = reinterpret_cast<volatile unsigned char *>(gp);
  for (;;)
  {
    if (g[0]) { hb_acquire(gp); return 0; }
    if (!g[1]) break;
    if (!active()) break;
    block_on(gp, NEVER, "waiting for a static initialiser");
  }
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t * gp) { unsigned char * g = reinterpret_cast<unsigned char *>(gp); g[0] = 1; g[1] = 0; hb_release(gp); if (active()) wake_all(gp); }
void __cxa_guard_abort(uint64_t * gp) { unsigned char * g = reinterpret_cast<unsigned char *>(gp); g[1] = 0; if (active()) wake_all(gp); }

int sem_init(sem_t * s, int, unsigned v) { memset(s, 0, sizeof *s); reinterpret_cast<Sem *>(s)->n = v; return 0; }
int sem_destroy(sem_t *) { return 0; }
static int sw(sem_t * p, i64 d, bool tr)
{
  Sem * s = reinterpret_cast<Sem *>(p);
  yield(6);
  while (!s->n)
  {
    if (tr) { errno = EAGAIN; return -1; }
    if (!block_on(s, d, "waiting for a semaphore") && d != NEVER && now() >= d) { errno = ETIMEDOUT; return -1; }
  }
  --s->n; hb_acquire(s);
  return 0;
}
int sem_wait(sem_t * s) { return sw(s, NEVER, false); }
int sem_trywait(sem_t * s) { return sw(s, NEVER, true); }
int sem_timedwait(sem_t * s, const struct timespec * t) { return sw(s, abs_deadline(CLOCK_REALTIME, t), false); }
int sem_post(sem_t * p) { Sem * s = reinterpret_cast<Sem *>(p); ++s->n; hb_release(s); if (active()) { wake_all(s); yield(6); } return 0; }

// ---- threads
static const uintptr_t TBASE = 0x7000;
int pthread_create(pthread_t * t, const pthread_attr_t *, void * (*fn)(void *), void * arg)
{
  static const char * names[] = {"node-thread-1", "node-thread-2", "node-thread-3", "node-thread-4"};
  if (!active()) harness_error("thread created outside a run");
  int g = child_group();
  int nth = 0;
  while (find_fiber(g, nth) >= 0) ++nth;      // the executor is 0
  char nm[24];
  snprintf(nm, sizeof nm, "%s", nth >= 1 && nth <= 4 ? names[nth - 1] : "node-thread-n");
  int id = spawn(nm, fn, arg, g);
  *t = static_cast<pthread_t>(TBASE + static_cast<uintptr_t>(id));
  log_event("thread created: fiber %d", id);
  yield(7);
  return 0;
}
int pthread_join(pthread_t t, void ** r)
{
  int id = static_cast<int>(static_cast<uintptr_t>(t) - TBASE);
  if (id < 0 || id >= MAXF) return EINVAL;
  if (id == current()) fail_run("deadlock", "thread joins itself");
  yield(7);
  join_fiber(id);
  if (r) *r = nullptr;
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) noexcept { if (!active()) return reinterpret_cast<pthread_t>(__builtin_thread_pointer()); return static_cast<pthread_t>(TBASE + static_cast<uintptr_t>(current())); }
int pthread_setname_np(pthread_t, const char *) { return 0; }
int sched_yield(void) noexcept { yield(8); return 0; }

// ---- time
int clock_gettime(clockid_t c, struct timespec * t) noexcept
{
  i64 n;
  if (!active()) { return static_cast<int>(syscall(SYS_clock_gettime, c, t)); }
  n = now();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) n += EPOCH + clock_skew;
  t->tv_sec = n / SEC; t->tv_nsec = n % SEC;
  return 0;
}
int gettimeofday(struct timeval * tv, void *) noexcept
{
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t * p) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int nanosleep(const struct timespec * r, struct timespec *)
{
  if (!active()) return static_cast<int>(syscall(SYS_nanosleep, r, nullptr));
  sleep_until(now() + ts_ns(r));
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec * r, struct timespec *)
{
  if (!active()) return static_cast<int>(syscall(SYS_clock_nanosleep, c, flags, r, nullptr));
  if (flags & TIMER_ABSTIME) sleep_until(abs_deadline(c, r)); else sleep_until(now() + ts_ns(r));
  return 0;
}
int usleep(useconds_t u) { if (!active()) return 0; sleep_until(now() + static_cast<i64>(u) * 1000); return 0; }
unsigned sleep(unsigned s) { if (!active()) return 0; sleep_until(now() + static_cast<i64>(s) * SEC); return 0; }

// std::atomic::wait, std::future and friends go to the futex system call directly
long syscall(long n, ...) noexcept
{
  va_list ap; va_start(ap, n);
  long a[6];
  for (auto & x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && active())
  {
    int * addr = reinterpret_cast<int *>(a[0]);
    int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
    {
      if (*addr != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
      i64 d = NEVER;
      if (a[3])
      {
        const struct timespec * t = reinterpret_cast<const struct timespec *>(a[3]);
        d = (op == FUTEX_WAIT) ? now() + t->tv_sec * SEC + t->tv_nsec
          : abs_deadline((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
      }
      if (!block_on(addr, d, "waiting for an atomic")) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    wake_all(addr);
    yield(9);
    return 1;
  }
  long r;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
  return r;
}
}  // extern "C"

// ---- randomness: std::random_device as seen by the code under test
std::random_device::result_type std::random_device::_M_getval() { return static_cast<result_type>(g_rand.next() >> 16); }

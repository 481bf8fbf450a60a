// Deterministic heap for everything allocated with operator new.
#include "kernel.hpp"
#include "arena.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>

namespace sim
{
bool races_fatal = true;
#ifdef SIM_FINE
const bool kFine = true;
#else
const bool kFine = false;
#endif

// Two arenas: [0] used by the parent, [1] used inside a run.
struct Arena
{
  char * base; char * top; char * end;
  struct Free { Free * next; };
  Free * bins[NBINS]; Free * tails[NBINS]; size_t binlen[NBINS];
};
static Arena A[2];
static int g_which = 0;
static bool g_checks = false;
uint8_t * g_shadow = nullptr;            // 1 byte per 8, for arena 1 only

static const uint64_t MAGIC = 0x51a110c8ed0b1ec7ULL, DEAD = 0xdeadb10cdeadb10cULL;
struct Hdr { uint64_t magic; uint32_t bin; uint32_t off; size_t size; size_t pad; };  // 32 bytes

static void init(int w)
{
  Arena & a = A[w];
  char * want = reinterpret_cast<char *>(w ? ARENA_BASE : ARENA0_BASE);
  size_t sz = ARENA_SIZE;
  void * p = mmap(want, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != want) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
  a.base = a.top = want; a.end = want + sz;
  if (w == 1)
  {
    p = mmap(reinterpret_cast<void *>(SHADOW_BASE), ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(SHADOW_BASE)) { fprintf(stderr, "shadow mmap failed\n"); _exit(3); }
    g_shadow = static_cast<uint8_t *>(p);
  }
}

static inline int bin_of(size_t n, size_t & cap)
{
  if (n <= 1024) { int b = static_cast<int>((n + 15) / 16); if (b == 0) b = 1; cap = static_cast<size_t>(b) * 16; return b; }
  int b = 65; size_t c = 1536;
  while (c < n) { c += c / 2; c = (c + 15) & ~size_t(15); ++b; }
  cap = c;
  return b;
}

static void * alloc(size_t n, size_t align)
{
  if (!A[g_which].base) init(g_which);
  Arena & a = A[g_which];
  if (n > ARENA_SIZE) throw std::bad_alloc();
  size_t extra = (align > 16) ? align + sizeof(Hdr) : 0;
  size_t cap; int b = bin_of(n + extra, cap);
  char * blk;
  bool reuse = a.bins[b] && (g_which == 0 || !g_checks || a.binlen[b] > QUARANTINE);
  if (reuse)
  {
    Arena::Free * f = a.bins[b];
    a.bins[b] = f->next;
    if (!a.bins[b]) a.tails[b] = nullptr;
    --a.binlen[b];
    blk = reinterpret_cast<char *>(f) - sizeof(Hdr);
  }
  else
  {
    size_t total = sizeof(Hdr) + cap + 16;
    if (a.top + total > a.end)
    {
      // A run that exhausts 1 GB of simulated heap is out of memory
      if (g_which == 1) fail_run("memory", "heap of the simulated process exhausted");
      fprintf(stderr, "arena full\n"); _exit(3);
    }
    blk = a.top; a.top += total;
  }
  char * user = blk + sizeof(Hdr);
  size_t off = 0;
  if (align > 16)
  {
    uintptr_t u = (reinterpret_cast<uintptr_t>(user) + sizeof(Hdr) + align - 1) & ~(align - 1);
    off = u - reinterpret_cast<uintptr_t>(user);
    user += off;
  }
  Hdr * h = reinterpret_cast<Hdr *>(user - sizeof(Hdr));
  h->magic = MAGIC; h->bin = static_cast<uint32_t>(b); h->off = static_cast<uint32_t>(off); h->size = n;
  if (g_which == 1 && g_checks)
  {
    // recycled memory must not look initialised
    memset(user, 0xA5, n < 256 ? n : 256);
    uint8_t * s = g_shadow + (user - A[1].base) / 8;
    memset(s, 8, n / 8);
    if (n & 7) s[n / 8] = static_cast<uint8_t>(n & 7);
    shadow_reset(user, n);
  }
  else if (g_which == 1)
  {
    memset(user, 0xA5, n < 64 ? n : 64);
  }
  return user;
}

static void release(void * p)
{
  if (!p) return;
  uintptr_t u = reinterpret_cast<uintptr_t>(p);
  int w = (u >= ARENA_BASE && u < ARENA_BASE + ARENA_SIZE) ? 1 : (u >= ARENA0_BASE && u < ARENA0_BASE + ARENA_SIZE) ? 0 : -1;
  if (w < 0) { free(p); return; }
  Hdr * h = reinterpret_cast<Hdr *>(static_cast<char *>(p) - sizeof(Hdr));
  if (h->magic != MAGIC)
  {
    if (w == 1)
      fail_run("memory", h->magic == DEAD ? "double free" : "free of a pointer that is not (or no longer) a heap block, or heap header overwritten");
    abort();
  }
  if (w == 0 && g_which == 1) return;    // parent's object freed inside a run: leak
  if (w == 1 && g_checks) mem_free_check(p, h->size);
  h->magic = DEAD;
  char * blkuser = static_cast<char *>(p) - h->off;
  if (w == 1 && g_checks)
  {
    memset(g_shadow + (static_cast<char *>(p) - A[1].base) / 8, 0, (h->size + 7) / 8);
    memset(p, 0xEB, h->size < 256 ? h->size : 256);
  }
  else if (w == 1 && h->size) memset(p, 0xEB, h->size < 64 ? h->size : 64);
  Arena & a = A[w];
  int b = static_cast<int>(h->bin);
  if (h->off)
  {
    Hdr * h0 = reinterpret_cast<Hdr *>(blkuser - sizeof(Hdr));
    h0->magic = DEAD; h0->bin = static_cast<uint32_t>(b);
  }
  Arena::Free * f = reinterpret_cast<Arena::Free *>(blkuser);
  f->next = nullptr;
  if (w == 1 && g_checks)
  {
    if (a.tails[b]) a.tails[b]->next = f; else a.bins[b] = f;      // FIFO = quarantine
    a.tails[b] = f;
  }
  else
  {
    f->next = a.bins[b]; a.bins[b] = f; if (!a.tails[b]) a.tails[b] = f;
  }
  ++a.binlen[b];
}

void arena_use(int which) { if (!A[which].base) init(which); g_which = which; }
void arena_checks(bool on) { g_checks = on; if (on && !A[1].base) init(1); }
bool arena_checking() { return g_checks && g_which == 1; }
char * arena_top() { return A[1].top; }

static bool describe_from(uintptr_t a, const char * tag, char * buf, size_t n)
{
  // walk back to the nearest header (16-byte steps)
  for (uintptr_t h = (a & ~uintptr_t(15)); h >= ARENA_BASE && h + (1 << 20) > a; h -= 16)
  {
    Hdr * x = reinterpret_cast<Hdr *>(h);
    if ((x->magic == MAGIC || x->magic == DEAD) && x->bin < NBINS && h + sizeof(Hdr) <= a)
    {
      snprintf(buf, n, "%s: %ld bytes into a %s heap block of %zu bytes", tag, static_cast<long>(a - h - sizeof(Hdr)),
               x->magic == DEAD ? "freed" : "live", x->size);
      return true;
    }
  }
  return false;
}
void arena_describe(uintptr_t a, char * buf, size_t n)
{
  if (!describe_from(a, "address", buf, n)) snprintf(buf, n, "address outside any heap block");
}
}  // namespace sim

void * operator new(size_t n) { return sim::alloc(n, 16); }
void * operator new[](size_t n) { return sim::alloc(n, 16); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return sim::alloc(n, 16); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::alloc(n, 16); }
void * operator new(size_t n, std::align_val_t a) { return sim::alloc(n, static_cast<size_t>(a)); }
void * operator new[](size_t n, std::align_val_t a) { return sim::alloc(n, static_cast<size_t>(a)); }
void operator delete(void * p) noexcept { sim::release(p); }
void operator delete[](void * p) noexcept { sim::release(p); }
void operator delete(void * p, size_t) noexcept { sim::release(p); }
void operator delete[](void * p, size_t) noexcept { sim::release(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { sim::release(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { sim::release(p); }
void operator delete(void * p, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void * p, std::align_val_t) noexcept { sim::release(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { sim::release(p); }

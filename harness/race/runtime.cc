// Runtime of the `race` variant: receives every memory access of the
// instrumented code (the compiler's hooks for ThreadSanitizer, which is not
// linked), keeps for each granule of memory which tasks of the running
// WorkStream touched it, and reports two tasks that access the same shared
// memory, one of them writing.  The verdict does not depend on the schedule.
//
// Not shared: memory allocated since the stream began (scratch and copy
// objects and what the tasks allocate), the stack below it, and thread-local
// variables.  Copiers never run at the same time as one another.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void  __libc_free(void *);
}

namespace
{
struct Cell
{
  uint32_t epoch, wtask, rtask, ctask; // first writer, readers (MANY: several), copier that wrote
  uint32_t wpc, rpc, cpc, crtask;      // where; copier that read
  uint8_t  wmask, rmask, cmask, priv;
};
constexpr uint32_t MANY = ~0u;
constexpr unsigned PAGE = 4096, CELLS = PAGE / 4;
// two levels over a 47 bit address space: 2^18 * 2^17 pages
Cell   **top[1 << 18];
bool     active = false, own = false;
int      role = 0, guards = 0;
uint32_t task = 0, epoch = 0;
uintptr_t frame_top = 0, stack_low = 0, exe_base = 0, exe_end = 0;
pthread_t owner;
uintptr_t tls_lo[64], tls_hi[64];
unsigned  n_tls = 0;
unsigned long accesses = 0, tasks = 0, epochs = 0, shared_writes = 0;
struct Seen { uint32_t a, b; } seen[512];
unsigned n_seen = 0;

void *map(size_t n)
{
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { fputs("GCPV: no memory\n", stderr); abort(); }
  return p;
}
Cell *page(uintptr_t a)
{
  a &= (1ul << 47) - 1;
  Cell **&t = top[a >> 29];
  if (!t) t = static_cast<Cell **>(map(sizeof(Cell *) << 17));
  Cell *&p = t[(a >> 12) & ((1u << 17) - 1)];
  if (!p) p = static_cast<Cell *>(map(sizeof(Cell) * CELLS));
  return p;
}
int tls_of(dl_phdr_info *info, size_t, void *)
{
  for (int i = 0; i < info->dlpi_phnum; ++i)
    {
      if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data && n_tls < 64)
        {
          tls_lo[n_tls] = reinterpret_cast<uintptr_t>(info->dlpi_tls_data);
          tls_hi[n_tls] = tls_lo[n_tls] + info->dlpi_phdr[i].p_memsz;
          ++n_tls;
        }
      if (info->dlpi_name && !info->dlpi_name[0] && info->dlpi_phdr[i].p_type == PT_LOAD)
        {
          exe_base = info->dlpi_addr;
          const uintptr_t e = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr + info->dlpi_phdr[i].p_memsz;
          if (e > exe_end) exe_end = e;
        }
    }
  return 0;
}
FILE *out()
{
  static FILE *f = nullptr;
  if (!f)
    {
      const char *n = getenv("GCPV_OUT");
      f = n ? fopen(n, "a") : nullptr;
      if (!f) f = stderr;
    }
  return f;
}
void report(const char *what, uint32_t a, uint32_t b, uint32_t other)
{
  for (unsigned i = 0; i < n_seen; ++i)
    if (seen[i].a == a && seen[i].b == b) return;
  if (n_seen == 512) return;
  seen[n_seen++] = {a, b};
  fprintf(out(), "GCPV-RACE %s 0x%x 0x%x tasks %u %u\n", what, a, b, task, other);
  fflush(out());
}
inline void access(uintptr_t a, size_t n, bool write, void *ret)
{
  if (!active || !role || guards || !pthread_equal(owner, pthread_self())) return;
  if (a < frame_top && a >= stack_low) return;
  ++accesses;
  for (unsigned i = 0; i < n_tls; ++i)
    if (a >= tls_lo[i] && a < tls_hi[i]) return;
  const uint32_t pc = uint32_t(reinterpret_cast<uintptr_t>(ret) - exe_base);
  while (n)
    {
      const unsigned off = a & 3, len = n < 4 - off ? unsigned(n) : 4 - off;
      const uint8_t  mask = ((1u << len) - 1) << off;
      Cell &c = page(a)[(a & (PAGE - 1)) >> 2];
      if (c.epoch != epoch) { memset(&c, 0, sizeof c); c.epoch = epoch; }
      if ((c.priv & mask) != mask)
        {
          if (role == 1)
            {
              if (c.wtask && c.wtask != task && (c.wmask & mask)) report(write ? "write-write" : "read-write", pc, c.wpc, c.wtask);
              if (c.ctask && c.ctask != task && (c.cmask & mask)) report(write ? "write-copier" : "read-copier", pc, c.cpc, c.ctask);
              if (write)
                {
                  ++shared_writes;
                  if (c.rtask && c.rtask != task && (c.rmask & mask)) report("write-read", pc, c.rpc, c.rtask);
                  if (c.crtask && c.crtask != task) report("write-copier-read", pc, c.cpc, c.crtask);
                  c.wmask = c.wtask == task ? c.wmask | mask : mask;
                  c.wtask = task; c.wpc = pc;
                }
              else
                {
                  c.rtask = !c.rtask || c.rtask == task ? task : MANY;
                  c.rmask |= mask; c.rpc = pc;
                }
            }
          else
            {
              if (c.wtask && c.wtask != task && (c.wmask & mask)) report(write ? "copier-write" : "copier-read-write", pc, c.wpc, c.wtask);
              if (write)
                {
                  if (c.rtask && c.rtask != task && (c.rmask & mask)) report("copier-read", pc, c.rpc, c.rtask);
                  c.ctask = !c.ctask || c.ctask == task ? task : MANY; c.cpc = pc; c.cmask |= mask;
                }
              else if (!c.crtask || c.crtask == task) c.crtask = task;
              else c.crtask = MANY;
            }
        }
      a += len; n -= len;
    }
}
void fresh(void *p, size_t n)
{
  if (!active || own || !p || !pthread_equal(owner, pthread_self())) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
  // the usable part, in whole granules
  e = (e + 3) & ~uintptr_t(3);
  for (; a < e; a += 4)
    {
      Cell &c = page(a)[(a & (PAGE - 1)) >> 2];
      memset(&c, 0, sizeof c);
      c.epoch = epoch;
      c.priv = 15;
    }
}
uint64_t rng_state = 0;
unsigned long schedule = ~0ul;
} // namespace

extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); fresh(p, n); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); fresh(p, n * m); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); fresh(p, n); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); fresh(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int   posix_memalign(void **r, size_t a, size_t n)
{
  void *p = memalign(a, n);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void free(void *p) { __libc_free(p); }

int __cxa_guard_acquire(void *g)
{
  static int (*f)(void *) = nullptr;
  if (!f) f = reinterpret_cast<int (*)(void *)>(dlsym(RTLD_NEXT, "__cxa_guard_acquire"));
  const int r = f(g);
  if (r && active && pthread_equal(owner, pthread_self())) ++guards;
  return r;
}
void __cxa_guard_release(void *g)
{
  static void (*f)(void *) = nullptr;
  if (!f) f = reinterpret_cast<void (*)(void *)>(dlsym(RTLD_NEXT, "__cxa_guard_release"));
  f(g);
  if (guards && pthread_equal(owner, pthread_self())) --guards;
}

static void gcpv_summary(void)
{
  fprintf(out(), "GCPV-OBSERVED epochs %lu tasks %lu accesses %lu shared-writes %lu races %u\n", epochs, tasks, accesses, shared_writes, n_seen);
  fflush(out());
}
void gcpv_epoch_begin(const void *frame)
{
  if (!exe_end)
    {
      dl_iterate_phdr(tls_of, nullptr);
      atexit(gcpv_summary);
    }
  owner = pthread_self();
  frame_top = reinterpret_cast<uintptr_t>(frame);
  stack_low = frame_top - (64ul << 20);
  ++epoch;
  ++epochs;
  guards = 0;
  active = true;
}
void gcpv_task(unsigned id, int r) { task = id; role = r; tasks += r == 1; }
void gcpv_epoch_end(void) { active = false; role = 0; }
unsigned long gcpv_schedule(void)
{
  if (schedule == ~0ul)
    {
      const char *s = getenv("GCPV_SCHEDULE");
      schedule = s ? strtoul(s, nullptr, 10) : 0;
      rng_state = schedule * 0x9E3779B97F4A7C15ull + 1;
    }
  return schedule;
}
unsigned gcpv_random(unsigned n)
{
  rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
  return unsigned((rng_state >> 11) % n);
}

// the compiler's hooks
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define HOOK(name, size, write) \
  void __tsan_##name(void *a) { access(reinterpret_cast<uintptr_t>(a), size, write, __builtin_return_address(0)); }
HOOK(read1, 1, false) HOOK(read2, 2, false) HOOK(read4, 4, false) HOOK(read8, 8, false) HOOK(read16, 16, false)
HOOK(write1, 1, true) HOOK(write2, 2, true) HOOK(write4, 4, true) HOOK(write8, 8, true) HOOK(write16, 16, true)
HOOK(unaligned_read2, 2, false) HOOK(unaligned_read4, 4, false) HOOK(unaligned_read8, 8, false) HOOK(unaligned_read16, 16, false)
HOOK(unaligned_write2, 2, true) HOOK(unaligned_write4, 4, true) HOOK(unaligned_write8, 8, true) HOOK(unaligned_write16, 16, true)
HOOK(volatile_read1, 1, false) HOOK(volatile_read4, 4, false) HOOK(volatile_read8, 8, false)
HOOK(volatile_write1, 1, true) HOOK(volatile_write4, 4, true) HOOK(volatile_write8, 8, true)
void __tsan_read_range(void *a, unsigned long n) { access(reinterpret_cast<uintptr_t>(a), n, false, __builtin_return_address(0)); }
void __tsan_write_range(void *a, unsigned long n) { access(reinterpret_cast<uintptr_t>(a), n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
// atomic operations synchronise: they are carried out and not watched
#define ATOMIC(bits, T)                                                                                                       \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); }                     \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                     \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }           \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }           \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }           \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }           \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }             \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }           \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int)                                       \
  { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                                 \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int)                                         \
  { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}

#include "rt_sched.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace {
struct Th {
  uint32_t nconf = 0, nfunc = 0;
  uint64_t nacc = 0;
  uintptr_t lo = 0, hi = 0; // own stack
  std::vector<uint32_t> want[2]; // switch points by kind
  std::vector<uint32_t> sites;
  std::atomic<uint32_t> progress{0};
  std::atomic<int> done{0}, tid{0};
};
Th th[2];
std::atomic<int> turn{0};
std::atomic<uint32_t> nswitch{0}, nsteal{0};
bool recording = false;
void (*body)(int) = nullptr;
__thread int me = -1;

const uint32_t TB = 1 << 20;
struct Entry {
  uint64_t g;
  uint8_t fl;
};
Entry *table = nullptr;
uint32_t slot(uint64_t g) { return (uint32_t)((g ^ (g >> 17) * 0x9E37) & (TB - 1)); }
std::vector<uint64_t> conf_list; // found while recording
const uint32_t CB = 1 << 14;
uint64_t ctab[CB];
bool have_conf = false;
bool in_conf(uint64_t g) {
  for (uint32_t i = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 50) & (CB - 1);; i = (i + 1) & (CB - 1)) {
    if (!ctab[i])
      return false;
    if (ctab[i] == g)
      return true;
  }
}
void fwait(int v, long ms) {
  timespec ts{ms / 1000, (ms % 1000) * 1000000};
  syscall(SYS_futex, reinterpret_cast<int *>(&turn), FUTEX_WAIT, v, &ts, 0, 0);
}
// is the thread blocked in the kernel (and not just not scheduled)?
bool asleep(int id) {
  char n[64], b[512];
  snprintf(n, sizeof n, "/proc/self/task/%d/stat", th[id].tid.load());
  int fd = open(n, O_RDONLY);
  if (fd < 0)
    return true;
  ssize_t k = read(fd, b, sizeof b - 1);
  close(fd);
  b[k > 0 ? k : 0] = 0;
  const char *p = strrchr(b, ')');
  return !p || p[2] != 'R';
}
void fwake() { syscall(SYS_futex, reinterpret_cast<int *>(&turn), FUTEX_WAKE, 4, 0, 0, 0); }
void await() {
  uint32_t last = th[1 - me].progress;
  int idle = 0, seen = -1;
  for (int v; (v = turn.load()) != me;) {
    if (v < 0) { // not started
      timespec ts{0, 20000};
      nanosleep(&ts, 0);
      continue;
    }
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    fwait(1 - me, 25);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    uint32_t p = th[1 - me].progress;
    if (p != last || seen != v) {
      last = p;
      seen = v;
      idle = 0;
    } else if ((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000 >= 20 && asleep(1 - me) && ++idle >= 2) {
      // the other thread waits for something this one holds: let this one go on
      int o = 1 - me;
      if (turn.compare_exchange_strong(o, me)) {
        nsteal++;
        break;
      }
    }
  }
}
void give() {
  if (th[1 - me].done.load())
    return;
  nswitch++;
  turn.store(1 - me);
  fwake();
  await();
}
inline bool wanted(Th &t, int kind, uint32_t n) {
  for (uint32_t w : t.want[kind])
    if (w == n)
      return true;
  return false;
}
inline void access(const void *p, size_t n, bool write) {
  if (me < 0)
    return;
  Th &t = th[me];
  uintptr_t a = (uintptr_t)p;
  if (a >= t.lo && a < t.hi)
    return;
  if (turn.load(std::memory_order_relaxed) != me)
    await();
  t.progress.store(t.progress.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
  if (!have_conf && !recording)
    return;
  t.nacc++;
  for (uint64_t g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; g++) {
    if (have_conf && in_conf(g)) {
      uint32_t k = t.nconf++;
      if (wanted(t, 0, k))
        give();
    }
    if (recording) {
      uint32_t i = slot(g);
      int tries = 0;
      while (table[i].g && table[i].g != g && ++tries < 4096)
        i = (i + 1) & (TB - 1);
      if (tries >= 4096)
        continue;
      Entry &e = table[i];
      e.g = g;
      uint8_t before = e.fl;
      e.fl |= (uint8_t)((write ? 2 : 1) << (2 * me));
      auto bad = [](uint8_t f) { return (f & 3) && (f & 12) && (f & 10); };
      if (!bad(before) && bad(e.fl) && conf_list.size() < 4000)
        conf_list.push_back(g);
    }
  }
}
void *start(void *v) {
  int id = (int)(intptr_t)v;
  th[id].tid = (int)syscall(SYS_gettid);
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void *base;
  size_t size;
  pthread_attr_getstack(&at, &base, &size);
  pthread_attr_destroy(&at);
  th[id].lo = (uintptr_t)base;
  th[id].hi = (uintptr_t)base + size;
  free(malloc(100)); // fixes the allocation arena of the thread
  me = id;
  await();
  body(id);
  th[id].done = 1;
  me = -1;
  turn.store(1 - id);
  fwake();
  return nullptr;
}
} // namespace

namespace sched {
void set_conflicts(const std::vector<uint64_t> &g) {
  memset(ctab, 0, sizeof ctab);
  have_conf = !g.empty();
  for (uint64_t x : g) {
    uint32_t i = (uint32_t)((x * 0x9E3779B97F4A7C15ull) >> 50) & (CB - 1);
    while (ctab[i])
      i = (i + 1) & (CB - 1);
    ctab[i] = x;
  }
}
Result run(int first, const std::vector<Switch> &sw, bool record, void (*f)(int)) {
  if (!table)
    table = (Entry *)mmap(0, sizeof(Entry) * TB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (auto &s : sw)
    th[s.thread].want[s.kind].push_back(s.n);
  recording = record;
  body = f;
  turn = first;
  if (record)
    for (auto &t : th)
      t.sites.reserve(1 << 16);
  pthread_t p[2];
  turn = -1; // nobody yet: the threads start one after the other, then the first goes
  me = -1;
  for (int i = 0; i < 2; i++) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&p[i], &at, start, (void *)(intptr_t)i)) {
      perror("pthread_create");
      _exit(99);
    }
    while (!th[i].hi)
      usleep(20);
    pthread_attr_destroy(&at);
  }
  turn.store(first);
  fwake();
  for (int i = 0; i < 2; i++)
    pthread_join(p[i], 0);
  Result r;
  r.finished = true;
  for (int i = 0; i < 2; i++) {
    r.nconf[i] = th[i].nconf;
    r.nfunc[i] = th[i].nfunc;
    r.accesses += th[i].nacc;
  }
  r.switches = nswitch;
  r.steals = nsteal;
  return r;
}
std::vector<uint64_t> conflicts() { return conf_list; }
std::vector<uint32_t> sites(int t) { return th[t].sites; }
} // namespace sched

// ---------------------------------------------------------------- instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  if (me < 0)
    return;
  Th &t = th[me];
  if (turn.load(std::memory_order_relaxed) != me)
    await();
  t.progress.store(t.progress.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
  uint32_t k = t.nfunc++;
  if (recording)
    t.sites.push_back((uint32_t)(uintptr_t)pc);
  if (wanted(t, 1, k))
    give();
}
void __tsan_func_exit() {}
#define RW(n)                                                                                                                                                       \
  void __tsan_read##n(void *p) { access(p, n, false); }                                                                                                             \
  void __tsan_write##n(void *p) { access(p, n, true); }                                                                                                             \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); }                                                                                                   \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true); }                                                                                                   \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); }                                                                                                    \
  void __tsan_volatile_write##n(void *p) { access(p, n, true); }                                                                                                    \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); }                                                                                          \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define AT(bits, T)                                                                                                                                                 \
  T __tsan_atomic##bits##_load(const volatile T *a, int) {                                                                                                          \
    access((void *)a, sizeof(T), false);                                                                                                                            \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                                                    \
  }                                                                                                                                                                 \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                                                                                                       \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                                                       \
  }                                                                                                                                                                 \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                                                                                                       \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                                                             \
  }                                                                                                                                                                 \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                                                                                                      \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                                                              \
  }                                                                                                                                                                 \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                                                                                                      \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                                                              \
  }                                                                                                                                                                 \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                                                                                                      \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                                                              \
  }                                                                                                                                                                 \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                                                                                                       \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                                                               \
  }                                                                                                                                                                 \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {                                                                                                      \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                                                              \
  }                                                                                                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                                                                           \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                                                                             \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                                                                 \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                                                                                 \
    access((void *)a, sizeof(T), true);                                                                                                                             \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                                   \
    return c;                                                                                                                                                       \
  }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// memory functions of the C library, called from instrumented code
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    access(s, n, false);
    access(d, n, true);
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n) {
    access(s, n, false);
    access(d, n, true);
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n) {
  if (n)
    access(d, n, true);
  return __real_memset(d, v, n);
}
}

#include "monitor.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <new>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
}

namespace mon {
namespace {
// Containers of the monitor do not use the monitored heap.
template <typename T> struct Raw {
  using value_type = T;
  Raw() = default;
  template <typename U> Raw(Raw<U> const &) {}
  T *allocate(size_t n) { return static_cast<T *>(__real_malloc(n * sizeof(T))); }
  void deallocate(T *p, size_t) { __real_free(p); }
  bool operator==(Raw const &) const { return true; }
  bool operator!=(Raw const &) const { return false; }
};
struct Block {
  size_t n;
  int owner;
};
using Map = std::map<uintptr_t, Block, std::less<uintptr_t>, Raw<std::pair<uintptr_t const, Block>>>;
Map &heap()
{
  static Map *m = new (__real_malloc(sizeof(Map))) Map;
  return *m;
}
Map &owned()
{
  static Map *m = new (__real_malloc(sizeof(Map))) Map;
  return *m;
}

constexpr size_t STACK = 256 * 1024;

struct Thread {
  int id = 0;
  char *stack = nullptr;
  ucontext_t ctx;
  Op const *op = nullptr;
  Run *run = nullptr;
  bool done = false;
  uint64_t stop_at = UINT64_MAX;
  int locked = 0; // depth of locks held / guarded initialisation
  int err = 0;
  void *eh[2] = {nullptr, nullptr};
  char *tls   = nullptr;          // its thread local variables while it does not run
  struct {
    void (*f)(void *);
    void *obj;
  } at_exit[32];
  int n_exit = 0;
};

// Thread local variables of the program, of which there is only one real copy.
struct Tls {
  char *now        = nullptr;
  char const *init = nullptr;
  size_t n = 0, n_init = 0;
  Tls()
  {
    dl_iterate_phdr(
      [](dl_phdr_info *info, size_t, void *v) -> int {
        auto self = static_cast<Tls *>(v);
        for (int i = 0; i < info->dlpi_phnum; ++i) {
          auto const &h = info->dlpi_phdr[i];
          if (h.p_type == PT_TLS && info->dlpi_tls_data) {
            self->now    = static_cast<char *>(info->dlpi_tls_data);
            self->n      = h.p_memsz;
            self->init   = reinterpret_cast<char const *>(info->dlpi_addr + h.p_vaddr);
            self->n_init = h.p_filesz;
          }
        }
        return 1; // the first is the program
      },
      this);
  }
};
Tls const &tls()
{
  static Tls t;
  return t;
}

int g_tag = 0;
Thread *cur = nullptr; // thread being observed, null while the harness itself runs
Thread threads[3];
ucontext_t main_ctx;
char bad_text[600];

bool in_tls(uintptr_t p)
{
  static uintptr_t lo[64], hi[64];
  static int n = -1;
  if (n < 0) {
    n = 0;
    dl_iterate_phdr(
      [](dl_phdr_info *info, size_t, void *) -> int {
        for (int i = 0; i < info->dlpi_phnum; ++i) {
          if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data && n < 64) {
            lo[n] = reinterpret_cast<uintptr_t>(info->dlpi_tls_data);
            hi[n] = lo[n] + info->dlpi_phdr[i].p_memsz;
            ++n;
          }
        }
        return 0;
      },
      nullptr);
  }
  for (int i = 0; i < n; ++i) {
    if (lo[i] <= p && p < hi[i]) {
      return true;
    }
  }
  return false;
}

Map::value_type const *lookup(Map const &m, uintptr_t p)
{
  auto spot = m.upper_bound(p);
  if (spot == m.begin()) {
    return nullptr;
  }
  --spot;
  return p < spot->first + spot->second.n ? &*spot : nullptr;
}

void report(char const *what, uintptr_t p, size_t n, Map::value_type const *block, void *pc)
{
  if (bad_text[0]) {
    return;
  }
  Dl_info di, si;
  char where[160] = "";
  if (pc && dladdr(pc, &di) && di.dli_sname) {
    int st;
    char *d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    snprintf(where, sizeof(where), " in %.140s", d ? d : di.dli_sname);
    __real_free(d);
  }
  if (block) {
    snprintf(bad_text, sizeof(bad_text), "%s %zu bytes at offset %zu of a block of %zu bytes%s%s", what, n, size_t(p - block->first), block->second.n,
             block->second.owner > 0 ? " of another object" : " of a shared object", where);
  } else if (dladdr(reinterpret_cast<void *>(p), &si) && si.dli_fname) {
    snprintf(bad_text, sizeof(bad_text), "%s %zu bytes of static storage (%.100s)%s", what, n, si.dli_sname ? si.dli_sname : "local", where);
  } else {
    snprintf(bad_text, sizeof(bad_text), "%s %zu bytes of a shared object%s", what, n, where);
  }
}

void leave(); // back to the scheduler

void access(void const *ptr, size_t n, bool write, void *pc)
{
  Thread *t = cur;
  auto p    = reinterpret_cast<uintptr_t>(ptr);
  if (write) {
    ++t->run->writes;
  }
  auto s = reinterpret_cast<uintptr_t>(t->stack);
  if (n == 0 || (s <= p && p < s + STACK)) {
    return;
  }
  cur        = nullptr;
  auto block = lookup(heap(), p);
  if (!block) {
    block = lookup(owned(), p);
  }
  bool mine = block ? block->second.owner == t->id : in_tls(p);
  if (!mine) {
    if (!t->locked) {
      if (write) {
        report("writes", p, n, block, pc);
      } else if (block && block->second.owner > 0) {
        report("reads", p, n, block, pc);
      }
      if (t->run->points++ == t->stop_at) {
        leave();
      }
    }
  }
  cur = t;
}

inline void acc(void const *p, size_t n, bool w, void *pc)
{
  if (__builtin_expect(cur != nullptr, 0)) {
    access(p, n, w, pc);
  }
}

void note_alloc(void *p, size_t n)
{
  // What nobody in particular allocated is shared, which is what an unknown address is taken for.
  if (p && (cur || g_tag)) {
    auto t = cur;
    cur    = nullptr;
    heap()[reinterpret_cast<uintptr_t>(p)] = Block{n, !t ? g_tag : t->locked ? SHARED : t->id};
    cur                                    = t;
  }
}

void note_free(void *p, void *pc)
{
  auto t = cur;
  cur    = nullptr;
  auto &h   = heap();
  auto spot = h.find(reinterpret_cast<uintptr_t>(p));
  if (spot != h.end()) {
    if (t && spot->second.owner != t->id && !t->locked) {
      report("frees", spot->first, spot->second.n, &*spot, pc);
    }
    h.erase(spot);
  } else if (t && p && !t->locked) {
    // Memory allocated inside the C library for this operation is not known either.
    ++t->run->unknown_frees;
  }
  cur = t;
}

void save(Thread *t)
{
  t->err = errno;
  memcpy(t->eh, __cxxabiv1::__cxa_get_globals(), sizeof(t->eh));
}
void restore(Thread *t)
{
  memcpy(__cxxabiv1::__cxa_get_globals(), t->eh, sizeof(t->eh));
  errno = t->err;
}

Thread *running = nullptr;
void leave()
{
  Thread *t = running;
  save(t);
  swapcontext(&t->ctx, &main_ctx);
  restore(t);
}

void body()
{
  Thread *t = running;
  {
    std::string v;
    cur = t;
    try {
      v = (*t->op)();
    } catch (std::exception &x) {
      v = std::string("exception ") + x.what();
    }
    cur           = nullptr;
    t->run->value = v;
  }
  cur = t;
  while (t->n_exit > 0) {
    auto x = t->at_exit[--t->n_exit];
    x.f(x.obj);
  }
  cur     = nullptr;
  t->done = true;
  save(t);
  swapcontext(&t->ctx, &main_ctx);
}

void enter(Thread *t)
{
  void *eh[2];
  int err = errno;
  memcpy(eh, __cxxabiv1::__cxa_get_globals(), sizeof(eh));
  memset(__cxxabiv1::__cxa_get_globals(), 0, sizeof(eh));
  auto const &v = tls();
  if (v.n) {
    memcpy(t->tls + v.n, v.now, v.n);
    memcpy(v.now, t->tls, v.n);
  }
  running = t;
  swapcontext(&main_ctx, &t->ctx);
  running = nullptr;
  cur     = nullptr;
  if (v.n) {
    memcpy(t->tls, v.now, v.n);
    memcpy(v.now, t->tls + v.n, v.n);
  }
  memcpy(__cxxabiv1::__cxa_get_globals(), eh, sizeof(eh));
  errno = err;
}

Thread *prepare(int slot, int id, Op const &op, Run &run, uint64_t stop_at)
{
  Thread *t = threads + slot;
  if (!t->stack) {
    t->stack = static_cast<char *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  }
  if (auto const &v = tls(); v.n) {
    if (!t->tls) {
      t->tls = static_cast<char *>(__real_malloc(2 * v.n));
    }
    memset(t->tls, 0, v.n);
    memcpy(t->tls, v.init, v.n_init);
  }
  t->n_exit  = 0;
  t->id      = id;
  t->op      = &op;
  t->run     = &run;
  t->done    = false;
  t->stop_at = stop_at;
  t->locked  = 0;
  t->err     = 0;
  t->eh[0] = t->eh[1] = nullptr;
  run                 = Run{};
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp   = t->stack;
  t->ctx.uc_stack.ss_size = STACK;
  t->ctx.uc_link          = nullptr;
  makecontext(&t->ctx, body, 0);
  return t;
}
} // namespace

void tag(int owner) { g_tag = owner; }
void own(void const *p, size_t n, int owner) { owned()[reinterpret_cast<uintptr_t>(p)] = Block{n, owner}; }
void reset()
{
  owned().clear();
  bad_text[0] = 0;
  g_tag       = 0;
}

Run solo(int id, Op const &op)
{
  Run r;
  bad_text[0] = 0;
  auto t      = prepare(0, id, op, r, UINT64_MAX);
  while (!t->done) {
    enter(t);
  }
  r.bad = bad_text;
  return r;
}

void pair(Op const &a, Op const &b, uint64_t i, uint64_t j, Run &ra, Run &rb)
{
  bad_text[0] = 0;
  auto ta     = prepare(1, 1, a, ra, i);
  auto tb     = prepare(2, 2, b, rb, j);
  enter(ta);
  enter(tb);
  while (!ta->done) {
    enter(ta);
  }
  while (!tb->done) {
    enter(tb);
  }
  ra.bad = bad_text;
}

} // namespace mon

using mon::acc;
#define PC __builtin_return_address(0)

// --- what the instrumentation calls -----------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { acc(p, sizeof(void *), true, PC); }
void __tsan_vptr_read(void **p) { acc(p, sizeof(void *), false, PC); }
#define RW(n)                                                              \
  void __tsan_read##n(void *p) { acc(p, n, false, PC); }                   \
  void __tsan_write##n(void *p) { acc(p, n, true, PC); }                   \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false, PC); }         \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, true, PC); }         \
  void __tsan_volatile_read##n(void *p) { acc(p, n, false, PC); }          \
  void __tsan_volatile_write##n(void *p) { acc(p, n, true, PC); }          \
  void __tsan_read_write##n(void *p) { acc(p, n, true, PC); }              \
  void __tsan_unaligned_read_write##n(void *p) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true, PC); }
void *__tsan_memcpy(void *d, void const *s, size_t n)
{
  acc(d, n, true, PC);
  acc(s, n, false, PC);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, void const *s, size_t n)
{
  acc(d, n, true, PC);
  acc(s, n, false, PC);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, size_t n)
{
  acc(d, n, true, PC);
  return memset(d, v, n);
}
// Atomic accesses synchronise, they are not conflicts (but what runs in between can matter).
static inline void sync_point()
{
  if (auto t = mon::cur; t && !t->locked) {
    mon::cur = nullptr;
    if (t->run->points++ == t->stop_at) {
      mon::leave();
    }
    mon::cur = t;
  }
}
#define ATOMIC(bits, T)                                                                                              \
  T __tsan_atomic##bits##_load(T const volatile *p, int) { sync_point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }            \
  void __tsan_atomic##bits##_store(T volatile *p, T v, int) { sync_point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }            \
  T __tsan_atomic##bits##_exchange(T volatile *p, T v, int) { sync_point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_add(T volatile *p, T v, int) { sync_point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_sub(T volatile *p, T v, int) { sync_point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_and(T volatile *p, T v, int) { sync_point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_or(T volatile *p, T v, int) { sync_point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }    \
  T __tsan_atomic##bits##_fetch_xor(T volatile *p, T v, int) { sync_point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }  \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile *p, T *e, T v, int, int)                              \
  {                                                                                                                  \
    sync_point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
  }                                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile *p, T *e, T v, int, int)                                \
  {                                                                                                                  \
    sync_point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
  }                                                                                                                  \
  T __tsan_atomic##bits##_compare_exchange_val(T volatile *p, T e, T v, int, int)                                    \
  {                                                                                                                  \
    sync_point(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
    return e;                                                                                                        \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// --- guarded initialisation and locks: accesses under them are synchronised --
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
static void lock(int d)
{
  if (mon::running) {
    mon::running->locked += d;
  }
}
int __wrap___cxa_guard_acquire(uint64_t *g)
{
  int r = __real___cxa_guard_acquire(g);
  if (r) {
    lock(1);
  }
  return r;
}
void __wrap___cxa_guard_release(uint64_t *g)
{
  __real___cxa_guard_release(g);
  lock(-1);
}
void __wrap___cxa_guard_abort(uint64_t *g)
{
  __real___cxa_guard_abort(g);
  lock(-1);
}
int __real___cxa_thread_atexit(void (*)(void *), void *, void *);
int __wrap___cxa_thread_atexit(void (*f)(void *), void *obj, void *dso)
{
  if (auto t = mon::running) {
    if (t->n_exit < 32) {
      t->at_exit[t->n_exit].f     = f;
      t->at_exit[t->n_exit++].obj = obj;
    }
    return 0;
  }
  return __real___cxa_thread_atexit(f, obj, dso);
}
#define LOCK(name, T, d)                    \
  int __real_##name(T *);                   \
  int __wrap_##name(T *m)                   \
  {                                         \
    int r = __real_##name(m);               \
    if (r == 0) {                           \
      lock(d);                              \
    }                                       \
    return r;                               \
  }
LOCK(pthread_mutex_lock, pthread_mutex_t, 1)
LOCK(pthread_mutex_trylock, pthread_mutex_t, 1)
LOCK(pthread_mutex_unlock, pthread_mutex_t, -1)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, 1)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, 1)
LOCK(pthread_rwlock_unlock, pthread_rwlock_t, -1)
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)())
{
  lock(1);
  int r = __real_pthread_once(o, f);
  lock(-1);
  return r;
}

// --- heap -------------------------------------------------------------------
void *__wrap_malloc(size_t n)
{
  auto p = __real_malloc(n);
  mon::note_alloc(p, n);
  return p;
}
void *__wrap_calloc(size_t n, size_t m)
{
  auto p = __real_calloc(n, m);
  mon::note_alloc(p, n * m);
  return p;
}
void *__wrap_realloc(void *q, size_t n)
{
  mon::note_free(q, PC);
  auto p = __real_realloc(q, n);
  mon::note_alloc(p, n);
  return p;
}
void __wrap_free(void *p)
{
  mon::note_free(p, PC);
  __real_free(p);
}
void *__wrap_aligned_alloc(size_t a, size_t n)
{
  auto p = __real_aligned_alloc(a, n);
  mon::note_alloc(p, n);
  return p;
}
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
  int r = __real_posix_memalign(p, a, n);
  if (r == 0) {
    mon::note_alloc(*p, n);
  }
  return r;
}

// --- library functions that write memory of the caller, or of their own ------
int __real_vsnprintf(char *, size_t, char const *, va_list);
int __wrap_vsnprintf(char *d, size_t n, char const *f, va_list ap)
{
  int r = __real_vsnprintf(d, n, f, ap);
  acc(d, r < 0 ? 0 : (size_t(r) < n ? r + 1 : n), true, PC);
  return r;
}
int __wrap_snprintf(char *d, size_t n, char const *f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = __real_vsnprintf(d, n, f, ap);
  va_end(ap);
  acc(d, r < 0 ? 0 : (size_t(r) < n ? r + 1 : n), true, PC);
  return r;
}
int __wrap_sprintf(char *d, char const *f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = vsprintf(d, f, ap);
  va_end(ap);
  acc(d, r < 0 ? 0 : r + 1, true, PC);
  return r;
}
#define OUT(T, name, args, call, dst, len) \
  T __real_##name args;                    \
  T __wrap_##name args                     \
  {                                        \
    acc(dst, len, true, PC);               \
    return __real_##name call;             \
  }
OUT(void *, memcpy, (void *d, void const *s, size_t n), (d, s, n), d, n)
OUT(void *, memmove, (void *d, void const *s, size_t n), (d, s, n), d, n)
OUT(void *, memset, (void *d, int v, size_t n), (d, v, n), d, n)
OUT(char *, strcpy, (char *d, char const *s), (d, s), d, strlen(s) + 1)
OUT(char *, strncpy, (char *d, char const *s, size_t n), (d, s, n), d, n)
OUT(char *, strcat, (char *d, char const *s), (d, s), d, strlen(d) + strlen(s) + 1)
#define IN(T, name, args, call, a, alen, b, blen) \
  T __real_##name args;                    \
  T __wrap_##name args                     \
  {                                        \
    acc(a, alen, false, PC);               \
    acc(b, blen, false, PC);               \
    return __real_##name call;             \
  }
IN(int, memcmp, (void const *a, void const *b, size_t n), (a, b, n), a, n, b, n)
IN(int, bcmp, (void const *a, void const *b, size_t n), (a, b, n), a, n, b, n)
IN(void *, memchr, (void const *a, int v, size_t n), (a, v, n), a, n, a, 0)
OUT(size_t, strftime, (char *d, size_t n, char const *f, struct tm const *t), (d, n, f, t), d, n)
OUT(struct tm *, localtime_r, (time_t const *t, struct tm *d), (t, d), d, sizeof(*d))
OUT(struct tm *, gmtime_r, (time_t const *t, struct tm *d), (t, d), d, sizeof(*d))
OUT(ssize_t, read, (int fd, void *d, size_t n), (fd, d, n), d, n)
OUT(char *, getcwd, (char *d, size_t n), (d, n), d, d ? n : 0)
OUT(char *, realpath, (char const *s, char *d), (s, d), d, d ? 4096 : 0)
static char libc_static[8]; // stands for the buffer inside the C library
#define OWN(T, name, args, call) OUT(T, name, args, call, libc_static, sizeof(libc_static))
OWN(struct tm *, localtime, (time_t const *t), (t))
OWN(struct tm *, gmtime, (time_t const *t), (t))
OWN(char *, ctime, (time_t const *t), (t))
OWN(char *, asctime, (struct tm const *t), (t))
OWN(char *, strtok, (char *s, char const *d), (s, d))
OWN(int, rand, (), ())
OWN(int, setenv, (char const *n, char const *v, int o), (n, v, o))
OWN(char *, setlocale, (int c, char const *l), (c, l))
OWN(char *, inet_ntoa, (uint32_t a), (a))
OWN(void *, getpwnam, (char const *n), (n))
OWN(void *, getpwuid, (unsigned n), (n))
OWN(void *, gethostbyname, (char const *n), (n))
OWN(void *, getservbyname, (char const *n, char const *p), (n, p))
} // extern "C"

void *operator new(size_t n)
{
  auto p = __real_malloc(n ? n : 1);
  if (!p) {
    throw std::bad_alloc();
  }
  mon::note_alloc(p, n ? n : 1);
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept
{
  auto p = __real_malloc(n ? n : 1);
  mon::note_alloc(p, n ? n : 1);
  return p;
}
void *operator new[](size_t n, std::nothrow_t const &t) noexcept { return operator new(n, t); }
void *operator new(size_t n, std::align_val_t a)
{
  void *p = nullptr;
  if (__real_posix_memalign(&p, size_t(a) < sizeof(void *) ? sizeof(void *) : size_t(a), n ? n : 1)) {
    throw std::bad_alloc();
  }
  mon::note_alloc(p, n ? n : 1);
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept
{
  mon::note_free(p, PC);
  __real_free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { operator delete(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { operator delete(p); }

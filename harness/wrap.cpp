// Interposed system calls.  Inactive (plain pass-through) unless a property
// arms a fault plan in its own child process.
#include "wrap.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
FaultPlan g_fault;
bool g_stop_ok = false;
int g_jitter = 0;
thread_local unsigned long t_jitter = 1;
extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
off_t __real_lseek(int, off_t, int);
int __real_ftruncate(int, off_t);
ssize_t __real_pread(int, void *, size_t, off_t);
ssize_t __real_pwrite(int, const void *, size_t, off_t);
int __real_fsync(int);
int __real_close(int);
int __real_open(const char *, int, ...);
void __real_abort(void) __attribute__((noreturn));
void __real___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
__attribute__((noreturn)) void __wrap_abort(void);
__attribute__((noreturn)) void __wrap_abort(void) {
  if (g_stop_ok) _exit(134);
  __real_abort();
}
__attribute__((noreturn)) void __wrap___assert_fail(const char *, const char *, unsigned, const char *);
__attribute__((noreturn)) void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *g) {
  if (g_stop_ok) _exit(134);
  __real___assert_fail(a, f, l, g);
}

off_t __real_lseek64(int, off_t, int);
int __real_ftruncate64(int, off_t);
ssize_t __real_pread64(int, void *, size_t, off_t);
ssize_t __real_pwrite64(int, const void *, size_t, off_t);
int __real_open64(const char *, int, ...);

static bool other_type(const void *p, size_t n) { return g_fault.type && (n < 20 || (((const unsigned char *)p)[18] | ((const unsigned char *)p)[19] << 8) != g_fault.type); }
static bool mine(int fd) { return g_fault.armed && fd >= 0 && fd == g_fault.fd; }
ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (mine(fd)) {
    if (g_fault.type) {             // what kind of page would it be
      off_t at = __real_lseek(fd, 0, SEEK_CUR);
      char head[20];
      if (__real_pread(fd, head, sizeof head, at) != (ssize_t)sizeof head || other_type(head, sizeof head)) return __real_read(fd, p, n);
    }
    long k = g_fault.nread++;
    if (g_fault.read_at >= 0 && k >= g_fault.read_at && k < g_fault.read_at + g_fault.read_n) { g_fault.hit_read++; if (g_fault.short_read && n > 1) return __real_read(fd, p, n / 2); errno = EIO; return -1; }
  }
  return __real_read(fd, p, n);
}
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  if (mine(fd) && !other_type(p, n)) {
    long k = g_fault.nwrite++;
    if (g_fault.write_at >= 0 && k >= g_fault.write_at && k < g_fault.write_at + g_fault.write_n) {
      g_fault.hit_write++;
      if (g_fault.short_write && n > 1) { ssize_t w = __real_write(fd, p, n / 2); return w; }
      errno = g_fault.enospc ? ENOSPC : EIO;
      return -1;
    }
  }
  return __real_write(fd, p, n);
}
ssize_t __wrap_pread(int fd, void *p, size_t n, off_t o) {
  if (mine(fd)) {
    long k = g_fault.nread++;
    if (g_fault.read_at >= 0 && k >= g_fault.read_at && k < g_fault.read_at + g_fault.read_n) { g_fault.hit_read++; if (g_fault.short_read && n > 1) return __real_pread(fd, p, n / 2, o); errno = EIO; return -1; }
  }
  return __real_pread(fd, p, n, o);
}
ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t o) {
  if (mine(fd)) {
    long k = g_fault.nwrite++;
    if (g_fault.write_at >= 0 && k >= g_fault.write_at && k < g_fault.write_at + g_fault.write_n) {
      g_fault.hit_write++;
      if (g_fault.short_write && n > 1) return __real_pwrite(fd, p, n / 2, o);
      errno = g_fault.enospc ? ENOSPC : EIO;
      return -1;
    }
  }
  return __real_pwrite(fd, p, n, o);
}
off_t __wrap_lseek(int fd, off_t o, int w) { return __real_lseek(fd, o, w); }
int __wrap_ftruncate(int fd, off_t n) {
  if (mine(fd)) {
    long k = g_fault.ntrunc++;
    if (g_fault.trunc_at >= 0 && k >= g_fault.trunc_at && k < g_fault.trunc_at + g_fault.trunc_n) { g_fault.hit_trunc++; errno = EIO; return -1; }
  }
  return __real_ftruncate(fd, n); }
int __wrap_fsync(int fd) { return __real_fsync(fd); }
int __wrap_close(int fd) { return __real_close(fd); }
int __wrap_open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  int fd = __real_open(p, fl, m);
  if (g_fault.path && fd >= 0 && !strcmp(p, g_fault.path)) g_fault.fd = fd;
  return fd;
}
// the same under the names that 64-bit file offsets give
ssize_t __wrap_pread64(int fd, void *p, size_t n, off_t o) {
  if (mine(fd)) {
    long k = g_fault.nread++;
    if (g_fault.read_at >= 0 && k >= g_fault.read_at && k < g_fault.read_at + g_fault.read_n) { g_fault.hit_read++; if (g_fault.short_read && n > 1) return __real_pread64(fd, p, n / 2, o); errno = EIO; return -1; }
  }
  return __real_pread64(fd, p, n, o);
}
ssize_t __wrap_pwrite64(int fd, const void *p, size_t n, off_t o) {
  if (mine(fd)) {
    long k = g_fault.nwrite++;
    if (g_fault.write_at >= 0 && k >= g_fault.write_at && k < g_fault.write_at + g_fault.write_n) {
      g_fault.hit_write++;
      if (g_fault.short_write && n > 1) return __real_pwrite64(fd, p, n / 2, o);
      errno = g_fault.enospc ? ENOSPC : EIO;
      return -1;
    }
  }
  return __real_pwrite64(fd, p, n, o);
}
off_t __wrap_lseek64(int fd, off_t o, int w) { return __real_lseek64(fd, o, w); }
int __wrap_ftruncate64(int fd, off_t n) {
  if (mine(fd)) {
    long k = g_fault.ntrunc++;
    if (g_fault.trunc_at >= 0 && k >= g_fault.trunc_at && k < g_fault.trunc_at + g_fault.trunc_n) { g_fault.hit_trunc++; errno = EIO; return -1; }
  }
  return __real_ftruncate64(fd, n); }
int __wrap_open64(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  int fd = __real_open64(p, fl, m);
  if (g_fault.path && fd >= 0 && !strcmp(p, g_fault.path)) g_fault.fd = fd;
  return fd;
}

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static void jit() {
  if (!g_jitter) return;
  t_jitter = t_jitter * 6364136223846793005UL + 1442695040888963407UL;
  unsigned long v = t_jitter >> 33;
  if ((int)(v % 1000) >= g_jitter) return;
  v /= 1000;
  if (v % 4) sched_yield();
  else { struct timespec t = {0, (long)(v / 4 % 60000)}; nanosleep(&t, nullptr); }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { jit(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); jit(); return r; }
}

// ---------------------------------------------------------------- memory accounting
#include <cstdlib>
#include <malloc.h>
#include <mutex>
#include <new>
#include <unordered_map>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
}
int g_mem = 0;
namespace {
template <class T> struct RawAlloc {
  typedef T value_type;
  RawAlloc() {}
  template <class U> RawAlloc(const RawAlloc<U> &) {}
  T *allocate(size_t n) { return (T *)__real_malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { __real_free(p); }
  template <class U> bool operator==(const RawAlloc<U> &) const { return true; }
  template <class U> bool operator!=(const RawAlloc<U> &) const { return false; }
};
struct Blk { size_t n; bool cpp; };
typedef std::unordered_map<void *, Blk, std::hash<void *>, std::equal_to<void *>, RawAlloc<std::pair<void *const, Blk>>> Blocks;
struct Acct { pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; Blocks b; long live[2] = {0, 0}, peak = 0; };
Acct *acct() {
  alignas(Acct) static char room[sizeof(Acct)];
  static Acct *a = nullptr;
  if (!a) a = new (room) Acct;
  return a;
}
void add(void *p, size_t n, bool cpp) {
  if (!g_mem || !p) return;
  Acct *a = acct();
  __real_pthread_mutex_lock(&a->mu);
  a->b[p] = {n, cpp};
  a->live[cpp] += (long)n;
  if (a->live[0] > a->peak) a->peak = a->live[0];
  __real_pthread_mutex_unlock(&a->mu);
}
void sub(void *p) {
  if (!g_mem || !p) return;
  Acct *a = acct();
  __real_pthread_mutex_lock(&a->mu);
  auto it = a->b.find(p);
  if (it != a->b.end()) { a->live[it->second.cpp] -= (long)it->second.n; a->b.erase(it); }
  __real_pthread_mutex_unlock(&a->mu);
}
}
MemUse mem_use() { Acct *a = acct(); return {a->live[0], a->peak, a->live[1], (long)a->b.size()}; }
void mem_start() { Acct *a = acct(); a->b.clear(); a->live[0] = a->live[1] = a->peak = 0; g_mem = 1; }
void mem_peak_reset() { Acct *a = acct(); a->peak = a->live[0]; }
extern "C" {
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); add(p, n, false); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); add(p, n * m, false); return p; }
void *__wrap_realloc(void *q, size_t n) { sub(q); void *p = __real_realloc(q, n); add(p, n, false); return p; }
void __wrap_free(void *p) { sub(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); add(p, strlen(s) + 1, false); return p; }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { int r = __real_posix_memalign(p, al, n); if (!r) add(*p, n, false); return r; }
void *__wrap_aligned_alloc(size_t al, size_t n) { void *p = __real_aligned_alloc(al, n); add(p, n, false); return p; }
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); add(p, n, true); return p; }
void *operator new[](size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); add(p, n, true); return p; }
void operator delete(void *p) noexcept { sub(p); __real_free(p); }
void operator delete[](void *p) noexcept { sub(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { sub(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { sub(p); __real_free(p); }
#endif

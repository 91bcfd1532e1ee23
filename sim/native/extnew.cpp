// Linked into the instrumented extension only: its C++ heap goes through the
// simulator (dirty memory, allocation failures); its locks never block the
// baton holder; static-local initialisation is not preempted.
#include <new>
#include <pthread.h>
#include "simcore.h"
extern "C" void sim_nopreempt(int);
extern "C" int sim_mutex_lock(pthread_mutex_t *);
void *operator new(size_t n) { void *p = sim_opnew(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = sim_opnew(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { sim_opdelete(p); }
void operator delete[](void *p) noexcept { sim_opdelete(p); }
void operator delete(void *p, size_t) noexcept { sim_opdelete(p); }
void operator delete[](void *p, size_t) noexcept { sim_opdelete(p); }
extern "C" {
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
void __real___cxa_guard_abort(void *);
int __wrap___cxa_guard_acquire(void *g) {
  int r = __real___cxa_guard_acquire(g); if (r) sim_nopreempt(1); return r; }
void __wrap___cxa_guard_release(void *g) { __real___cxa_guard_release(g); sim_nopreempt(-1); }
void __wrap___cxa_guard_abort(void *g) { __real___cxa_guard_abort(g); sim_nopreempt(-1); }
void *__wrap_malloc(size_t n) { return sim_opnew(n); }
void __wrap_free(void *p) { sim_opdelete(p); }
void *__wrap_calloc(size_t n, size_t s) {
  void *p = sim_opnew(n * s); if (p) __builtin_memset(p, 0, n * s); return p; }
size_t sim_opsize(void *);
void *__wrap_realloc(void *q, size_t n) {
  void *p = sim_opnew(n); if (!p || !q) return p;
  size_t k = sim_opsize(q);
  __builtin_memcpy(p, q, k < n ? k : n); sim_opdelete(q); return p; }
// Block operations take as long, and can be preempted, as the loops they stand for.
void sim_touch(void);
void *__real_memset(void *, int, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memset(void *p, int c, size_t n) {
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { __real_memset((char *)p + i, c, 8); sim_touch(); }
  if (i < n) __real_memset((char *)p + i, c, n - i);
  return p; }
void *__wrap_memmove(void *p, const void *q, size_t n) {
  char *d = (char *)p; const char *s = (const char *)q;
  size_t r = n % 8;
  if (d <= s || d >= s + n) {
    for (size_t i = 0; i + 8 <= n; i += 8) { __real_memmove(d + i, s + i, 8); sim_touch(); }
    if (r) __real_memmove(d + n - r, s + n - r, r);
  } else {
    if (r) __real_memmove(d + n - r, s + n - r, r);
    for (size_t i = n - r; i; i -= 8) { __real_memmove(d + i - 8, s + i - 8, 8); sim_touch(); }
  }
  return p; }
void *__wrap_memcpy(void *p, const void *q, size_t n) { return __wrap_memmove(p, q, n); }
void sim_need_gil(void);
struct _ts;
void __real_PyEval_RestoreThread(struct _ts *);
void __wrap_PyEval_RestoreThread(struct _ts *t) { sim_need_gil(); __real_PyEval_RestoreThread(t); }
void __real_PyEval_AcquireThread(struct _ts *);
void __wrap_PyEval_AcquireThread(struct _ts *t) { sim_need_gil(); __real_PyEval_AcquireThread(t); }
int PyGILState_Check(void);
int __real_PyGILState_Ensure(void);
int __wrap_PyGILState_Ensure(void) {
  if (!PyGILState_Check()) sim_need_gil();
  return __real_PyGILState_Ensure(); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return sim_mutex_lock(m); }
}

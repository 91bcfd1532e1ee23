/*
 * simcore: the deterministic scheduler, the simulated heap and the fault
 * injector.  Client threads are real threads, but exactly one of them (the
 * baton holder) runs at any time; the others are parked on a semaphore with
 * the GIL released.  Every scheduling decision is drawn from one seeded PRNG
 * (or read from a recorded schedule), at "yield points":
 *   - every basic block, load and store of the instrumented C++ extension that
 *     executes with the GIL released (kind K),
 *   - every source line of hmmlearn's Python code (kind L),
 *   - the boundaries of client operations (kind O).
 * The "clock" is the number of yield points passed; nothing reads a real clock.
 */
#define _GNU_SOURCE
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_2_0_API_VERSION
#define NPY_TARGET_VERSION NPY_2_0_API_VERSION
#include <numpy/arrayobject.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <ucontext.h>
#include <unistd.h>
#include "simcore.h"

#define EXPORT __attribute__((visibility("default")))
#define MAXC 16

enum { K_KERNEL = 0, K_LINE = 1, K_OP = 2, NKIND = 3 };

typedef struct { uint64_t step; int to; } Switch;
typedef struct {
  sem_t sem;
  int state;            /* 0 unused, 1 live, 2 done */
  uint64_t stall_until; /* not eligible before this step */
} Client;

static Client cl[MAXC];
static int ncl, cur = -1, active;
static sem_t done_sem;
static uint64_t step, step_cap, nswitch, kstep_held, jumped;
static uint64_t since; /* steps at the last boundary of a client operation */
static uint64_t cnt[NKIND];
static uint64_t rng_s[4];
static double mean_gap, p_line;
static uint64_t hard_cap = 400000000ULL, hard_cnt;
static int64_t countdown;
static int scripted;
static Switch *script; static size_t nscript, iscript;
static Switch *rec; static size_t nrec, caprec;
static uint64_t fp_hash; /* fingerprint of the interleaving */
static uint64_t over_cap;

/* Per-thread fault state. */
typedef struct {
  int id;
  int nopreempt;
  /* interrupt: raise exception number `exc` at the n-th line event */
  int64_t line_at; int line_exc; int line_fired;
  uint64_t lines;
  /* interrupt: at execution `occ` of the n-th distinct source line */
  int64_t uline_at, occ_left; int nseen; void *target_code; long target_line;
  /* interrupt: once the n-th distinct line that writes an attribute has run */
  int64_t wline_at; void *pending; long first, last;
  /* allocation failures */
  int64_t alloc_at; int alloc_fired; uint64_t allocs;
  int64_t new_at; int new_fired; uint64_t news;
  /* stalls: at the n-th kernel event (GIL held or not) */
  int64_t stall_at; uint64_t stall_len; int stall_fired; int stall_blocked;
  uint64_t kev, kheld; /* kernel events of this thread, and those with GIL held */
  uint64_t bytes; /* array memory asked for */
} Tls;
static __thread Tls T = { .id = -1 };
/* array memory held for a client's current operation, whoever frees it, and its maximum */
static struct { uint64_t when; int64_t held, peak; } acc[MAXC + 1];
static uint64_t whens;

/* ---- PRNG: xoshiro256** seeded by splitmix64 ---- */
static uint64_t splitmix(uint64_t *x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd(void) {
  uint64_t r = rotl(rng_s[1] * 5, 7) * 9, t = rng_s[1] << 17;
  rng_s[2] ^= rng_s[0]; rng_s[3] ^= rng_s[1]; rng_s[1] ^= rng_s[2];
  rng_s[0] ^= rng_s[3]; rng_s[2] ^= t; rng_s[3] = rotl(rng_s[3], 45);
  return r;
}
static int64_t draw_gap(void) {
  /* a rough geometric/heavy-tailed mixture around mean_gap */
  uint64_t r = rnd();
  double u = (double)((r >> 11) + 1) / 9007199254740993.0;
  double g = mean_gap;
  switch (r & 7) {
    case 0: g = mean_gap * 8; break;
    case 1: g = mean_gap / 4; break;
    default: break;
  }
  /* -ln(u) without libm precision issues: log is deterministic here */
  double v = -__builtin_log(u) * g;
  if (v > 1e15) v = 1e15;
  return (int64_t)v + 1;
}

static void record(int to) {
  if (nrec == caprec) {
    caprec = caprec ? caprec * 2 : 256;
    rec = realloc(rec, caprec * sizeof *rec);
  }
  rec[nrec].step = step; rec[nrec].to = to; nrec++;
  fp_hash = (fp_hash ^ (step * 31 + (uint64_t)to)) * 0x100000001b3ULL;
}
static int eligible(int i) {
  return i >= 0 && i < ncl && cl[i].state == 1 && cl[i].stall_until <= step;
}
/* pick someone other than `not` if possible; -1 when nobody is live */
static int pick(int not) {
  int cand[MAXC], n = 0;
  for (int i = 0; i < ncl; i++) if (i != not && eligible(i)) cand[n++] = i;
  if (n == 0) return -1;
  if (!scripted) return cand[rnd() % n];
  for (int k = 0; k < n; k++) if (cand[k] > not) return cand[k];
  return cand[0];
}
/* forced choice (the current client is done or stalled) */
static int pick_forced(int not) {
  int to = -1;
  if (scripted && iscript < nscript && script[iscript].step == step) {
    to = script[iscript++].to;
    if (!(to != not && eligible(to))) to = -1;
  }
  if (to < 0) to = pick(not);
  if (to < 0) { /* everybody stalled: jump the clock to the earliest wake-up */
    uint64_t best = UINT64_MAX;
    for (int i = 0; i < ncl; i++)
      if (cl[i].state == 1 && cl[i].stall_until < best) { best = cl[i].stall_until; to = i; }
    if (to >= 0 && best > step) { jumped += best - step; step = best; }
  }
  return to;
}
static void wait_sem(sem_t *s) { while (sem_wait(s) == -1 && errno == EINTR) {} }

static void hang(void) {
  static const char m[] = "SIM-HARD-CAP\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(77);
}

/* A client that waits for a lock of the extension while it holds the interpreter
   lock keeps that lock: whoever needs it waits as well (and if the lock's owner is
   among those, nobody ever proceeds). */
static int gil_stuck = -1;
static void need_gil(void) {
  int me = T.id;
  if (!active || me < 0) return;
  while (gil_stuck >= 0 && gil_stuck != me) {
    step++;
    if (step - jumped - since > step_cap) hang();
    cl[me].state = 4;
    int to = pick_forced(me);
    if (to < 0) hang();
    nswitch++; record(to);
    cur = to; sem_post(&cl[to].sem);
    wait_sem(&cl[me].sem);
  }
}
EXPORT void sim_need_gil(void) { need_gil(); }

static void switch_to(int to, int gil) {
  int me = T.id;
  nswitch++;
  record(to);
  if (gil) {
    PyThreadState *ts = PyEval_SaveThread();
    cur = to; sem_post(&cl[to].sem);
    wait_sem(&cl[me].sem);
    need_gil();
    PyEval_RestoreThread(ts);
  } else {
    cur = to; sem_post(&cl[to].sem);
    wait_sem(&cl[me].sem);
  }
}

static inline void ypoint(int kind, int gil) {
  step++; cnt[kind]++;
  if (step - jumped - since > step_cap) over_cap = 1;
  if (T.nopreempt) return;
  if (scripted) {
    while (iscript < nscript && script[iscript].step < step) iscript++;
    if (iscript < nscript && script[iscript].step == step) {
      int to = script[iscript++].to;
      if (to != T.id && eligible(to)) switch_to(to, gil);
    }
  } else if (kind != K_KERNEL && p_line > 0 &&
             (double)(rnd() >> 11) / 9007199254740992.0 < p_line) {
    int to = pick(T.id);
    if (to >= 0) switch_to(to, gil);
  } else if (--countdown <= 0) {
    countdown = draw_gap();
    int to = pick(T.id);
    if (to >= 0) switch_to(to, gil);
  }
}

static void do_stall(int gil) {
  cl[T.id].stall_until = step + T.stall_len;
  int to = pick_forced(T.id);
  if (to >= 0 && to != T.id) switch_to(to, gil);
}

/* ---- instrumentation callbacks ---- */
static void kernel_event(void) {
  if (!active || T.id < 0) return;
  T.kev++;
  if (++hard_cnt > hard_cap) hang(); /* a native loop that never ends */
  int held = PyGILState_Check();
  if (held) { T.kheld++; kstep_held++; }
  if (T.stall_at > 0 && --T.stall_at == 0) {
    T.stall_fired = 1;
    if (held) T.stall_blocked = 1; /* nobody else can run: see C15 */
    else { step++; do_stall(0); }
  }
  if (!held) ypoint(K_KERNEL, 0);
}
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; kernel_event(); }
#define LS(n) \
  EXPORT void __sanitizer_cov_load##n(void *p) { (void)p; kernel_event(); } \
  EXPORT void __sanitizer_cov_store##n(void *p) { (void)p; kernel_event(); }
LS(1) LS(2) LS(4) LS(8) LS(16)
/* Part of a block operation. Clearing a result before letting go of the lock is nothing
   to hold against anyone, as numpy does it too. */
EXPORT void sim_touch(void) {
  if (active && T.id >= 0 && PyGILState_Check()) T.kev++;
  else kernel_event();
}

/* static-local initialisation and mutexes inside the extension */
EXPORT void sim_nopreempt(int d) { T.nopreempt += d; }
/* A lock the extension blocks on: spin by yielding, so the holder can run. */
EXPORT int sim_mutex_lock(pthread_mutex_t *m) {
  if (!active || T.id < 0) return pthread_mutex_lock(m);
  int me = T.id, stuck = 0;
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) {
      if (stuck) {
        gil_stuck = -1;
        for (int i = 0; i < ncl; i++) if (cl[i].state == 4) cl[i].state = 1;
      }
      return r;
    }
    if (PyGILState_Check()) { gil_stuck = me; stuck = 1; }
    step++;
    if (step - jumped - since > step_cap) hang();
    cl[me].state = 2;     /* waiting: the clock may jump to when the owner wakes up */
    int to = pick_forced(me);
    cl[me].state = 1;
    if (to < 0) hang();   /* nobody is left to release it */
    switch_to(to, 0);
  }
}

/* ---- simulated heap ---- */
/* mode 1: redzones + poison; 2: guard page after the block; 3: guard page before it */
static int heap_mode = 1;
static uint64_t poison = 0x7ff8dead0000beefULL;
static uint64_t heap_bad, heap_allocs, heap_failed, new_failed;
static pthread_mutex_t heap_mu = PTHREAD_MUTEX_INITIALIZER;
typedef struct Blk {
  struct Blk *prev, *next; /* of its hash bucket */
  char *data;
  size_t size; int mode; int owner; uint64_t when; /* in which operation */
  void *map; size_t maplen;
  uint64_t magic;
} Blk;
#define MAGIC 0x5117a110c5117a11ULL
#define RED 0xa5c3a5c3a5c3a5c3ULL
#define HDR 96
#define TAIL 64
#define NB 4096
static Blk *bucket[NB];
static long nlive, live_by[MAXC + 1];
static size_t hb(const void *p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL) >> 52; }
_Static_assert(sizeof(Blk) <= HDR, "header");
static void blk_link(Blk *b) {
  pthread_mutex_lock(&heap_mu);
  Blk **h = &bucket[hb(b->data)];
  b->prev = 0; b->next = *h;
  if (*h) (*h)->prev = b;
  *h = b; nlive++;
  b->owner = T.id < 0 ? MAXC : T.id; live_by[b->owner]++;
  b->when = acc[b->owner].when; acc[b->owner].held += b->size;
  if (acc[b->owner].held > acc[b->owner].peak) acc[b->owner].peak = acc[b->owner].held;
  pthread_mutex_unlock(&heap_mu);
  T.bytes += b->size;
}
static void blk_unlink(Blk *b) {
  pthread_mutex_lock(&heap_mu);
  if (b->prev) b->prev->next = b->next; else bucket[hb(b->data)] = b->next;
  if (b->next) b->next->prev = b->prev;
  nlive--; live_by[b->owner]--;
  if (b->when == acc[b->owner].when) acc[b->owner].held -= b->size;
  pthread_mutex_unlock(&heap_mu);
}

static void fill(void *p, size_t n) {
  size_t i = 0; char *c = p;
  for (; i + 8 <= n; i += 8) memcpy(c + i, &poison, 8);
  if (i < n) memcpy(c + i, &poison, n - i);
}
static void *blk_new(size_t n) {
  heap_allocs++;
  size_t want = n ? n : 1;
  if (heap_mode == 2) {
    size_t pg = 4096, len = (HDR + want + pg - 1) / pg * pg;
    char *m = mmap(0, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return 0;
    mprotect(m + len, pg, PROT_NONE);
    /* the block ends exactly at the guard page; its header sits at the start */
    char *data = m + len - want;
    if (n == 0) data = m + len; /* touching a zero-size block faults */
    if ((size_t)(data - m) < HDR) abort();
    Blk *b = (Blk *)m;
    b->size = n; b->mode = 2; b->map = m; b->maplen = len + pg; b->magic = MAGIC;
    fill(data, n);
    b->data = data; blk_link(b);
    return data;
  }
  if (heap_mode == 3) {
    size_t pg = 4096, len = (want + pg - 1) / pg * pg;
    char *m = mmap(0, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return 0;
    mprotect(m, pg, PROT_NONE);
    Blk *b = malloc(sizeof *b);
    b->size = n; b->mode = 3; b->map = m; b->maplen = len + pg; b->magic = MAGIC;
    fill(m + pg, len);
    b->data = m + pg; blk_link(b);
    return b->data;
  }
  char *m = 0;
  if (posix_memalign((void **)&m, 64, (HDR + 32 + want + TAIL + 63) / 64 * 64)) return 0;
  char *data = m + HDR + 32;
  Blk *b = (Blk *)m;
  b->size = n; b->mode = 1; b->map = 0; b->magic = MAGIC; b->data = data;
  for (int i = 0; i < 4; i++) { uint64_t r = RED; memcpy(m + HDR + 8 * i, &r, 8); }
  fill(data, n);
  for (int i = 0; i < TAIL; i++) data[n + i] = (char)(0xa5 ^ i);
  blk_link(b);
  return data;
}
static int blk_ok(Blk *b) {
  if (b->magic != MAGIC) return 0;
  if (b->mode == 1) {
    char *m = (char *)b, *data = m + HDR + 32;
    uint64_t r;
    for (int i = 0; i < 4; i++) { memcpy(&r, m + HDR + 8 * i, 8); if (r != RED) return 0; }
    for (int i = 0; i < TAIL; i++) if (data[b->size + i] != (char)(0xa5 ^ i)) return 0;
  }
  return 1;
}
static Blk *blk_of(void *p) {
  pthread_mutex_lock(&heap_mu);
  Blk *q = bucket[hb(p)];
  while (q && q->data != (char *)p) q = q->next;
  pthread_mutex_unlock(&heap_mu);
  return q;
}
static void blk_free(Blk *b) {
  if (!blk_ok(b)) heap_bad++;
  blk_unlink(b);
  if (b->mode == 2) munmap(b->map, b->maplen);
  else if (b->mode == 3) { munmap(b->map, b->maplen); free(b); }
  else { fill((char *)b + HDR + 32, b->size); b->magic = 0; free(b); }
}
/* numpy itself crashes when the data of a 0-d temporary cannot be allocated
 * (numpy 2.1.3, isclose on scalars), so the tiniest requests never fail. */
#define FAIL_MIN 17
static int alloc_should_fail(size_t n) {
  if (T.id < 0 || n < FAIL_MIN) return 0;
  T.allocs++;
  if (T.alloc_at > 0 && --T.alloc_at == 0) { T.alloc_fired = 1; heap_failed++; return 1; }
  return 0;
}
static void *h_malloc(void *ctx, size_t n) { (void)ctx; return alloc_should_fail(n) ? 0 : blk_new(n); }
static void *h_calloc(void *ctx, size_t a, size_t b) {
  (void)ctx;
  if (alloc_should_fail(a * b)) return 0;
  size_t n = a * b;
  void *p = blk_new(n);
  if (p) memset(p, 0, n);
  return p;
}
static void h_free(void *ctx, void *p, size_t n) {
  (void)ctx;
  if (!p) return;
  (void)n; Blk *b = blk_of(p);
  if (b) blk_free(b); else { heap_bad++; }
}
static void *h_realloc(void *ctx, void *p, size_t n) {
  (void)ctx;
  if (alloc_should_fail(n)) return 0;
  void *q = blk_new(n);
  if (!q) return 0;
  if (p) {
    Blk *b = blk_of(p);
    if (b) { memcpy(q, p, b->size < n ? b->size : n); blk_free(b); } else heap_bad++;
  }
  return q;
}
static PyDataMem_Handler handler = {
  "simheap", 1, { 0, h_malloc, h_calloc, h_realloc, h_free } };

EXPORT void *sim_opnew(size_t n) {
  if (active && T.id >= 0) {
    T.news++;
    if (T.new_at > 0 && --T.new_at == 0) { T.new_fired = 1; new_failed++; return 0; }
  }
  if (active && T.id >= 0 && heap_mode > 1 && n >= 8) return blk_new(n);
  T.bytes += n;
  void *p = malloc(n ? n : 1);
  if (p) fill(p, n);
  return p;
}
EXPORT void sim_opdelete(void *p) {
  if (!p) return;
  Blk *b = nlive ? blk_of(p) : 0;
  if (b) blk_free(b); else free(p);
}
EXPORT size_t sim_opsize(void *p) {
  Blk *b = nlive ? blk_of(p) : 0;
  return b ? b->size : malloc_usable_size(p);
}

/* ---- crashes ---- */
/* Some numpy functions dereference null when an allocation fails (sorting through
   buffers, numpy 2.1.3).  A crash inside numpy, scipy or the C library, under the
   interpreter lock, in an operation whose allocation was made to fail is theirs. */
static void on_crash(int sig, siginfo_t *si, void *uc) {
  (void)si;
  if (T.alloc_fired && PyGILState_Check()) {
    Dl_info d;
    void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    if (dladdr(pc, &d) && d.dli_fname &&
        (strstr(d.dli_fname, "/numpy") || strstr(d.dli_fname, "/scipy") ||
         strstr(d.dli_fname, "/sklearn"))) {
      static const char m[] = "SIM-LIBRARY-CRASH\n";
      if (write(2, m, sizeof m - 1)) {}
      _exit(78);
    }
  }
  signal(sig, SIG_DFL);
}
static PyObject *py_watch_crashes(PyObject *self, PyObject *noarg) {
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_sigaction = on_crash; a.sa_flags = SA_SIGINFO;
  sigaction(SIGSEGV, &a, 0); sigaction(SIGBUS, &a, 0);
  Py_RETURN_NONE;
}

/* ---- Python interface ---- */
static PyObject *exc_types[4];

static PyObject *py_setup(PyObject *self, PyObject *args, PyObject *kw) {
  /* setup(n, seed, gap, cap, script=None, heap=1, poison=...) */
  static char *kws[] = {"n", "seed", "gap", "cap", "script", "heap", "poison", "pline", "hard", 0};
  int n, hm = 1; unsigned long long seed, cap, po = poison, hc = hard_cap; double gap, pl = 0; PyObject *sc = Py_None;
  if (!PyArg_ParseTupleAndKeywords(args, kw, "iKdK|OiKdK", kws, &n, &seed, &gap, &cap, &sc, &hm, &po, &pl, &hc))
    return 0;
  if (n > MAXC || n < 1) { PyErr_SetString(PyExc_ValueError, "n"); return 0; }
  for (int i = 0; i < n; i++) { sem_init(&cl[i].sem, 0, 0); cl[i].state = 1; cl[i].stall_until = 0; }
  for (int i = n; i < MAXC; i++) cl[i].state = 0;
  gil_stuck = -1; ncl = n; cur = -1; step = 0; nswitch = 0; kstep_held = 0; jumped = 0; since = 0; over_cap = 0;
  step_cap = cap; memset(cnt, 0, sizeof cnt);
  uint64_t x = seed; for (int i = 0; i < 4; i++) rng_s[i] = splitmix(&x);
  p_line = pl; hard_cap = hc; hard_cnt = 0; mean_gap = gap; nrec = 0; fp_hash = 0xcbf29ce484222325ULL;
  free(script); script = 0; nscript = iscript = 0; scripted = 0;
  heap_mode = hm; poison = po; heap_bad = 0; heap_allocs = heap_failed = new_failed = 0;
  if (sc != Py_None) {
    scripted = 1;
    PyObject *f = PySequence_Fast(sc, "script");
    if (!f) return 0;
    nscript = PySequence_Fast_GET_SIZE(f);
    script = malloc((nscript + 1) * sizeof *script);
    for (size_t i = 0; i < nscript; i++) {
      PyObject *it = PySequence_Fast_GET_ITEM(f, i);
      unsigned long long s; int to;
      PyObject *t = PySequence_Tuple(it);
      if (!t || !PyArg_ParseTuple(t, "Ki", &s, &to)) { Py_XDECREF(t); Py_DECREF(f); return 0; }
      Py_DECREF(t);
      script[i].step = s; script[i].to = to;
    }
    Py_DECREF(f);
  }
  countdown = draw_gap();
  sem_init(&done_sem, 0, 0);
  Py_RETURN_NONE;
}

static PyObject *py_enter(PyObject *self, PyObject *arg) {
  int id = (int)PyLong_AsLong(arg);
  memset(&T, 0, sizeof T);
  T.id = id;
  Py_BEGIN_ALLOW_THREADS
  wait_sem(&cl[id].sem);
  need_gil();
  Py_END_ALLOW_THREADS
  Py_RETURN_NONE;
}
static PyObject *py_leave(PyObject *self, PyObject *noarg) {
  int me = T.id;
  step++;
  cl[me].state = 2;
  int to = pick_forced(me);
  T.id = -1;
  if (to < 0) { active = 0; sem_post(&done_sem); }
  else { record(to); cur = to; sem_post(&cl[to].sem); }
  Py_RETURN_NONE;
}
static PyObject *py_run(PyObject *self, PyObject *noarg) {
  active = 1;
  step++;
  int to = -1;
  if (scripted && iscript < nscript && script[iscript].step == step) {
    to = script[iscript++].to; if (!eligible(to)) to = -1; }
  if (to < 0) to = pick(-1);
  if (to < 0) { PyErr_SetString(PyExc_RuntimeError, "no client"); return 0; }
  record(to);
  cur = to;
  Py_BEGIN_ALLOW_THREADS
  sem_post(&cl[to].sem);
  wait_sem(&done_sem);
  Py_END_ALLOW_THREADS
  active = 0;
  Py_RETURN_NONE;
}

/* Distinct (code, line) pairs a client has executed in its current operation. */
#define SEEN 4096
static __thread struct { void *code; long line; } seen[SEEN];
static int first_time(void *code, long line) {
  uint64_t h = ((uint64_t)(uintptr_t)code >> 4) * 0x9e3779b97f4a7c15ULL + (uint64_t)line * 0xff51afd7ed558ccdULL;
  for (size_t i = h >> 52; ; i = (i + 1) % SEEN) {
    if (!seen[i].code) { seen[i].code = code; seen[i].line = line; return 1; }
    if (seen[i].code == code && seen[i].line == line) return 0;
  }
}

static PyObject *ev_line(int kind) {
  if (active && T.id >= 0) {
    if (kind == K_LINE) {
      T.lines++;
      if (T.line_at > 0 && --T.line_at == 0) {
        T.line_fired = 1;
        PyErr_SetString(exc_types[T.line_exc], "simulated");
        return 0;
      }
    }
    if (over_cap) { PyErr_SetString(exc_types[3], "step cap exceeded"); return 0; }
    ypoint(kind, 1);
  }
  Py_RETURN_NONE;
}
static PyObject *writers; /* {code: {first line of an assignment to an attribute: its last}} */

/* Is this code still running in the calling thread? */
static int running(void *code) {
  int found = 0;
  PyFrameObject *f = PyEval_GetFrame();
  Py_XINCREF(f);
  while (f && !found) {
    PyCodeObject *c = PyFrame_GetCode(f);
    PyFrameObject *b = PyFrame_GetBack(f);
    found = (void *)c == code;
    Py_DECREF(c); Py_DECREF(f);
    f = b;
  }
  Py_XDECREF(f);
  return found;
}
static void write_fault(PyObject *code, PyObject *line) {
  long at = PyLong_AsLong(line);
  if (T.pending) {
    if (T.pending == (void *)code ? T.first <= at && at <= T.last : running(T.pending)) return;
    T.pending = 0;
    if (--T.wline_at == 0) { T.line_at = 1; return; }
  }
  PyObject *lines = writers ? PyDict_GetItem(writers, code) : 0;
  PyObject *last = lines ? PyDict_GetItem(lines, line) : 0;
  if (last && first_time(code, at)) {
    T.pending = code; T.first = at; T.last = PyLong_AsLong(last);
  }
}
static PyObject *py_set_writers(PyObject *self, PyObject *d) {
  Py_INCREF(d); Py_XSETREF(writers, d);
  Py_RETURN_NONE;
}
static PyObject *py_on_line(PyObject *self, PyObject *const *a, Py_ssize_t n) {
  if (active && T.id >= 0 && T.wline_at > 0 && n >= 2) write_fault(a[0], a[1]);
  if (active && T.id >= 0 && T.uline_at > 0 && n >= 2) {
    long line = PyLong_AsLong(a[1]);
    if (!T.target_code && T.nseen < SEEN / 2 && first_time(a[0], line)
        && ++T.nseen == T.uline_at) {
      T.target_code = a[0]; T.target_line = line;
    }
    if (T.target_code == a[0] && T.target_line == line && --T.occ_left == 0) {
      T.uline_at = 0; T.line_at = 1;
    }
  }
  return ev_line(K_LINE);
}
static PyObject *py_op(PyObject *self, PyObject *noarg) {
  if (active && T.id >= 0 && !over_cap) { since = step - jumped; hard_cnt = 0; }
  return ev_line(K_OP);
}
/* a blocked Python-level lock: let somebody else run */
static PyObject *py_blocked(PyObject *self, PyObject *noarg) {
  if (active && T.id >= 0) {
    step++;
    if (step - jumped - since > step_cap) over_cap = 1;
    if (over_cap) { PyErr_SetString(exc_types[3], "step cap exceeded"); return 0; }
    int to = pick(T.id);
    if (to >= 0) switch_to(to, 1);
  }
  Py_RETURN_NONE;
}
static PyObject *py_arm(PyObject *self, PyObject *args, PyObject *kw) {
  static char *kws[] = {"line", "exc", "alloc", "new", "stall", "stall_len", "uline", "occ", "wline", 0};
  long long l = 0, a = 0, nw = 0, st = 0, ul = 0, oc = 1, wl = 0; int e = 0; unsigned long long sl = 0;
  if (!PyArg_ParseTupleAndKeywords(args, kw, "|LiLLLKLLL", kws, &l, &e, &a, &nw, &st, &sl, &ul, &oc, &wl)) return 0;
  T.wline_at = wl; T.pending = 0;
  T.uline_at = ul; T.occ_left = oc; T.nseen = 0; T.target_code = 0;
  if (ul > 0 || wl > 0) memset(seen, 0, sizeof seen);
  T.line_at = l; T.line_exc = e; T.line_fired = 0; T.lines = 0;
  T.alloc_at = a; T.alloc_fired = 0; T.allocs = 0;
  T.new_at = nw; T.new_fired = 0; T.news = 0;
  T.stall_at = st; T.stall_len = sl; T.stall_fired = 0; T.stall_blocked = 0;
  T.kev = T.kheld = 0; T.bytes = 0;
  if (T.id >= 0) {
    pthread_mutex_lock(&heap_mu);
    acc[T.id].when = ++whens; acc[T.id].held = acc[T.id].peak = 0;
    pthread_mutex_unlock(&heap_mu);
  }
  Py_RETURN_NONE;
}
static PyObject *py_disarm(PyObject *self, PyObject *noarg) {
  T.wline_at = T.uline_at = T.line_at = T.alloc_at = T.new_at = T.stall_at = 0;
  return Py_BuildValue("{s:i,s:i,s:i,s:i,s:i,s:K,s:K,s:K,s:K,s:K,s:K,s:K}",
    "line", T.line_fired, "alloc", T.alloc_fired, "new", T.new_fired,
    "stall", T.stall_fired, "blocked", T.stall_blocked,
    "lines", (unsigned long long)T.lines, "allocs", (unsigned long long)T.allocs,
    "news", (unsigned long long)T.news, "kev", (unsigned long long)T.kev,
    "kheld", (unsigned long long)T.kheld, "bytes", (unsigned long long)T.bytes,
    "peak", (unsigned long long)acc[T.id < 0 ? MAXC : T.id].peak);
}
static PyObject *py_stats(PyObject *self, PyObject *noarg) {
  return Py_BuildValue("{s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K}",
    "steps", (unsigned long long)step, "switches", (unsigned long long)nswitch,
    "kernel", (unsigned long long)cnt[0], "line", (unsigned long long)cnt[1],
    "op", (unsigned long long)cnt[2], "held", (unsigned long long)kstep_held,
    "fp", (unsigned long long)fp_hash, "over_cap", (unsigned long long)over_cap,
    "heap_bad", (unsigned long long)heap_bad, "heap_allocs", (unsigned long long)heap_allocs,
    "heap_failed", (unsigned long long)heap_failed, "new_failed", (unsigned long long)new_failed,
    "jumped", (unsigned long long)jumped);
}
static PyObject *py_schedule(PyObject *self, PyObject *noarg) {
  PyObject *l = PyList_New(nrec);
  for (size_t i = 0; i < nrec; i++)
    PyList_SET_ITEM(l, i, Py_BuildValue("(Ki)", (unsigned long long)rec[i].step, rec[i].to));
  return l;
}
static PyObject *py_now(PyObject *self, PyObject *noarg) { return PyLong_FromUnsignedLongLong(step); }
static PyObject *py_me(PyObject *self, PyObject *noarg) { return PyLong_FromLong(active ? T.id : -1); }
static PyObject *py_heap_on(PyObject *self, PyObject *noarg) {
  /* install the simulated heap for this thread's context */
  PyObject *cap = PyCapsule_New(&handler, "mem_handler", 0);
  if (!cap) return 0;
  PyObject *old = PyDataMem_SetHandler(cap);
  Py_DECREF(cap);
  if (!old) return 0;
  return old;
}
static PyObject *py_heap_restore(PyObject *self, PyObject *old) {
  PyObject *o = PyDataMem_SetHandler(old);
  if (!o) return 0;
  Py_DECREF(o);
  Py_RETURN_NONE;
}
static PyObject *py_heap_mode(PyObject *self, PyObject *args) {
  unsigned long long po; int m;
  if (!PyArg_ParseTuple(args, "iK", &m, &po)) return 0;
  heap_mode = m; poison = po;
  Py_RETURN_NONE;
}
static PyObject *py_heap_check(PyObject *self, PyObject *noarg) {
  pthread_mutex_lock(&heap_mu);
  long bad = (long)heap_bad, live = nlive;
  for (int i = 0; i < NB; i++)
    for (Blk *q = bucket[i]; q; q = q->next) if (!blk_ok(q)) bad++;
  pthread_mutex_unlock(&heap_mu);
  return Py_BuildValue("(ll)", bad, live);
}
static PyObject *py_live(PyObject *self, PyObject *arg) {
  long i = PyLong_AsLong(arg);
  if (i < 0 || i > MAXC) { PyErr_SetString(PyExc_ValueError, "client"); return 0; }
  return PyLong_FromLong(live_by[i]);
}
static PyObject *py_set_exc(PyObject *self, PyObject *args) {
  PyObject *a, *b, *c, *d;
  if (!PyArg_ParseTuple(args, "OOOO", &a, &b, &c, &d)) return 0;
  PyObject *v[4] = {a, b, c, d};
  for (int i = 0; i < 4; i++) { Py_INCREF(v[i]); exc_types[i] = v[i]; }
  Py_RETURN_NONE;
}

static PyMethodDef methods[] = {
  {"setup", (PyCFunction)(void (*)(void))py_setup, METH_VARARGS | METH_KEYWORDS, ""},
  {"enter", py_enter, METH_O, ""}, {"leave", py_leave, METH_NOARGS, ""},
  {"run", py_run, METH_NOARGS, ""},
  {"set_writers", py_set_writers, METH_O, ""},
  {"on_line", (PyCFunction)(void (*)(void))py_on_line, METH_FASTCALL, ""},
  {"op", py_op, METH_NOARGS, ""}, {"blocked", py_blocked, METH_NOARGS, ""},
  {"arm", (PyCFunction)(void (*)(void))py_arm, METH_VARARGS | METH_KEYWORDS, ""},
  {"disarm", py_disarm, METH_NOARGS, ""}, {"stats", py_stats, METH_NOARGS, ""},
  {"schedule", py_schedule, METH_NOARGS, ""}, {"now", py_now, METH_NOARGS, ""},
  {"me", py_me, METH_NOARGS, ""},
  {"heap_on", py_heap_on, METH_NOARGS, ""}, {"heap_restore", py_heap_restore, METH_O, ""},
  {"heap_mode", py_heap_mode, METH_VARARGS, ""},
  {"watch_crashes", py_watch_crashes, METH_NOARGS, ""},
  {"live", py_live, METH_O, ""},
  {"heap_check", py_heap_check, METH_NOARGS, ""},
  {"set_exc", py_set_exc, METH_VARARGS, ""},
  {0, 0, 0, 0}};
static struct PyModuleDef mod = { PyModuleDef_HEAD_INIT, "_simcore", 0, -1, methods, 0, 0, 0, 0 };
EXPORT PyMODINIT_FUNC PyInit__simcore(void);
PyMODINIT_FUNC PyInit__simcore(void) {
  import_array();
  return PyModule_Create(&mod);
}

/* A deterministic scheduler below pthreads.
 *
 * Preloaded (or linked) into a program it takes over mutexes, condition
 * variables, thread creation and joining, and the futex calls behind
 * std::future.  Exactly one thread runs at a time; at every synchronisation
 * operation the next thread is chosen by a policy, so one seed is one
 * interleaving and the merged output of the program is a linearised trace.
 *
 *   SCHED_SEED=n       random policy with this seed
 *   SCHED_PCT=d        priority policy (PCT) with d change points
 *   SCHED_STICKY=p     per mille: stay with the running thread (random policy)
 *   SCHED_SPURIOUS=p   per mille: spurious wake-ups of condition variables
 *   SCHED_CHOICES=list comma separated choices (index into the enabled
 *                      threads, ordered by creation), then the default policy
 *                      "keep running, else lowest"; used for systematic search
 *   SCHED_THREADS=list comma separated thread numbers (behaviours of the
 *                      specification); a thread that is not enabled is skipped
 *   SCHED_SECTIONS=list  like SCHED_THREADS, one entry per critical section
 *   SCHED_LOG=file     choices: "n chosen running" lines, n = enabled threads
 *   SCHED_TRACE=1      call sched_trace(...) hooks (linked harness)
 *
 * exit 86: deadlock (no thread can run), exit 87: step limit.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

#define MAXT 64
enum { NONE, READY, MUTEX, COND, JOIN, FUTEX, DONE };
struct thr {
  int state;
  void* on;           /* mutex / cond / futex address */
  int futex_val, timed, woken;
  struct thr* join;
  sem_t sem;
  pthread_t id;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  unsigned prio;
  void* relock;       /* mutex to take again after a wait */
};
static struct thr T[MAXT];
static int nthr, active, granted_free;
static __thread struct thr* self;
static atomic_flag big = ATOMIC_FLAG_INIT;
static unsigned long long rng;
static int pct_d = -1, sticky, spurious, use_choices, use_threads;
static char* script;
static FILE* slog;
static long steps, maxsteps = 2000000;
static long change_at[16];
static _Atomic long progress;
static struct thr* current;
static int use_sections, boundary = 1;

/* hooks for a linked harness (weak: absent in the preloaded form) */
void sched_event(const char* what, int thread, void* object) __attribute__((weak));

static long (*real_syscall)(long, ...);
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);

static void enter(void) { while (atomic_flag_test_and_set_explicit(&big, memory_order_acquire)) sched_yield(); }
static void leave(void) { atomic_flag_clear_explicit(&big, memory_order_release); }
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 11); }

/* ---- mutexes: owner by address */
#define MH 4096
static struct { void* a; struct thr* owner; int depth; } M[MH];
static int mslot(void* a) {
  unsigned h = (unsigned)(((unsigned long)a >> 3) * 2654435761u) % MH;
  for (unsigned i = 0; i < MH; ++i) { unsigned k = (h + i) % MH; if (M[k].a == a) return k; if (!M[k].a) { M[k].a = a; return k; } }
  abort();
}
static void mforget(void* a) { int k = mslot(a); M[k].owner = 0; M[k].depth = 0; }

static void fail(int code, const char* msg) {
  char b[2048];
  int n = snprintf(b, sizeof b, "\nSCHED-%s:", msg);
  for (int i = 0; i < nthr && n < 1900; ++i)
    n += snprintf(b + n, sizeof b - n, " t%d=%s", i, ((const char*[]){"none", "ready", "mutex", "cond", "join", "futex", "done"})[T[i].state]);
  b[n++] = '\n';
  if (write(2, b, n)) {}
  if (slog) fflush(slog);
  _exit(code);
}

static int enabled(struct thr* t) {
  switch (t->state) {
    case READY: return 1;
    case MUTEX: return M[mslot(t->on)].owner == 0;
    case COND: return 0;
    case JOIN: return t->join->state == DONE;
    case FUTEX: return t->woken || *(volatile int*)t->on != t->futex_val;
  }
  return 0;
}

static void* watchdog(void* x) {
  (void)x;
  long last = -1; int idle = 0;
  for (;;) {
    struct timespec ts = {1, 0}; nanosleep(&ts, 0);
    long p = atomic_load(&progress);
    idle = p == last ? idle + 1 : 0;
    last = p;
    if (idle >= 20) {  /* the running thread synchronises in a way we do not see: let all run */
      enter();
      granted_free = 1;
      for (int i = 0; i < nthr; ++i) if (enabled(&T[i]) && &T[i] != current) sem_post(&T[i].sem);
      leave();
      return 0;
    }
  }
}

static void init(void) {
  if (active) return;
  active = 1;
  real_syscall = dlsym(RTLD_NEXT, "syscall");
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  const char* s;
  rng = 88172645463325252ULL;
  if ((s = getenv("SCHED_SEED"))) { rng ^= (unsigned long long)(atoll(s) + 1) * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 8; ++i) rnd(); }
  if ((s = getenv("SCHED_PCT"))) { pct_d = atoi(s); if (pct_d > 16) pct_d = 16; long len = getenv("SCHED_LEN") ? atol(getenv("SCHED_LEN")) : 200; for (int i = 0; i < pct_d; ++i) change_at[i] = rnd() % (len ? len : 1); }
  if ((s = getenv("SCHED_STICKY"))) sticky = atoi(s);
  if ((s = getenv("SCHED_SPURIOUS"))) spurious = atoi(s);
  if ((s = getenv("SCHED_CHOICES"))) { use_choices = 1; script = strdup(s); }
  if ((s = getenv("SCHED_THREADS"))) { use_threads = 1; script = strdup(s); }
  if ((s = getenv("SCHED_SECTIONS"))) { use_threads = use_sections = 1; script = strdup(s); }
  if ((s = getenv("SCHED_MAX"))) maxsteps = atol(s);
  if ((s = getenv("SCHED_LOG"))) slog = fopen(s, "w");
  self = current = &T[0];
  nthr = 1;
  T[0].state = READY;
  T[0].prio = 1000000 + rnd() % 1000000;
  T[0].id = pthread_self();
  sem_init(&T[0].sem, 0, 0);
}
__attribute__((constructor)) static void ctor(void) { init(); }

static int next_script(void) {
  if (!script || !*script) return -1;
  char* e;
  long v = strtol(script, &e, 10);
  script = *e ? e + 1 : e;
  return (int)v;
}

/* choose the next thread; called with the big lock held */
static struct thr* choose(void) {
  struct thr* en[MAXT];
  int n;
again:
  n = 0;
  for (int i = 0; i < nthr; ++i) if (enabled(&T[i])) en[n++] = &T[i];
  if (spurious && (int)(rnd() % 1000) < spurious)
    for (int i = 0; i < nthr; ++i) if (T[i].state == COND && !T[i].timed && T[i].relock && rnd() % 2) { T[i].state = MUTEX; T[i].on = T[i].relock; T[i].woken = 2; goto again; }
  if (n == 0) {
    /* a timed wait may expire */
    for (int i = 0; i < nthr; ++i) if ((T[i].state == COND || T[i].state == FUTEX) && T[i].timed) { T[i].woken = 3; if (T[i].state == COND) { T[i].state = MUTEX; T[i].on = T[i].relock; } goto again; }
    fail(86, "DEADLOCK");
  }
  if (++steps > maxsteps) fail(87, "STEPS");
  int run = -1, c;
  for (int i = 0; i < n; ++i) if (en[i] == current) run = i;
  if (use_sections && !boundary && run >= 0) c = run;
  else if (use_choices) {
    c = n > 1 ? next_script() : 0;
    if (c < 0 || c >= n) c = run >= 0 ? run : 0;
  } else if (use_threads) {
    c = -1;
    while (c < 0) {
      int t = next_script();
      if (t < 0) { c = run >= 0 ? run : 0; break; }
      for (int i = 0; i < n; ++i) if (en[i] == &T[t]) c = i;
    }
  } else if (pct_d >= 0) {
    for (int i = 0; i < pct_d; ++i) if (change_at[i] == steps && current) current->prio = 16 - i;
    c = 0;
    for (int i = 1; i < n; ++i) if (en[i]->prio > en[c]->prio) c = i;
  } else if (run >= 0 && sticky && (int)(rnd() % 1000) < sticky) c = run;
  else c = rnd() % n;
  boundary = 0;
  if (slog && n > 1) { fprintf(slog, "%d %d %d\n", n, c, run); }
  return en[c];
}

/* hand the processor over; the caller's state says what it waits for */
static void reschedule(void) {
  atomic_fetch_add(&progress, 1);
  if (granted_free) {       /* free running: block on our own condition only */
    while (!enabled(self)) { leave(); struct timespec ts = {0, 1000000}; nanosleep(&ts, 0); enter(); }
    return;
  }
  struct thr* n = choose();
  current = n;
  if (n == self) return;
  sem_post(&n->sem);
  leave();
  while (sem_wait(&self->sem)) {}
  enter();
  while (granted_free && !enabled(self)) { leave(); struct timespec ts = {0, 1000000}; nanosleep(&ts, 0); enter(); }
}
static void point(void) { self->state = READY; reschedule(); }
static void lock_locked(void* m) {
  int k = mslot(m);
  if (M[k].owner == self) {
    int kind = ((pthread_mutex_t*)m)->__data.__kind & 3;
    if (kind == PTHREAD_MUTEX_RECURSIVE) { ++M[k].depth; return; }
  }
  self->state = MUTEX; self->on = m;
  reschedule();
  while (M[mslot(m)].owner) { self->state = MUTEX; self->on = m; reschedule(); }
  M[mslot(m)].owner = self;
  M[mslot(m)].depth = 1;
  self->state = READY;
  if (sched_event) sched_event("acquire", self - T, m);
}
static void unlock_locked(void* m) {
  int k = mslot(m);
  if (--M[k].depth > 0) return;
  if (sched_event) sched_event("release", self - T, m);
  M[k].owner = 0;
}

static int foreign(void) { init(); return self == 0; }  /* threads we did not create */

int pthread_mutex_lock(pthread_mutex_t* m) { if (foreign()) return 0; enter(); lock_locked(m); leave(); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (foreign()) return 0;
  enter();
  point();
  int k = mslot(m), r = EBUSY;
  if (!M[k].owner) { M[k].owner = self; M[k].depth = 1; r = 0; if (sched_event) sched_event("acquire", self - T, m); }
  leave();
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (foreign()) return 0; enter(); unlock_locked(m); boundary = 1; point(); leave(); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { init(); enter(); mforget(m); leave(); return 0; }

static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int timed) {
  if (foreign()) return 0;
  enter();
  if (sched_event) sched_event("wait", self - T, c);
  unlock_locked(m);
  boundary = 1;
  self->state = COND; self->on = c; self->relock = m; self->timed = timed; self->woken = 0;
  reschedule();
  while (M[mslot(m)].owner) { self->state = MUTEX; self->on = m; reschedule(); }
  int w = self->woken;
  M[mslot(m)].owner = self; M[mslot(m)].depth = 1;
  self->state = READY; self->relock = 0; self->woken = 0;
  if (sched_event) { sched_event("acquire", self - T, m); sched_event("woken", self - T, c); }
  leave();
  return w == 3 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { (void)t; return cwait(c, m, 1); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { (void)k; (void)t; return cwait(c, m, 1); }
static void cwake(struct thr* t) { t->woken = 1; t->state = MUTEX; t->on = t->relock; }
int pthread_cond_signal(pthread_cond_t* c) {
  if (foreign()) return 0;
  enter();
  struct thr* w[MAXT]; int n = 0;
  for (int i = 0; i < nthr; ++i) if (T[i].state == COND && T[i].on == c) w[n++] = &T[i];
  if (sched_event) sched_event("signal", self - T, c);
  if (n) cwake(w[(use_choices || use_threads) ? 0 : (int)(rnd() % n)]);
  point();
  leave();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (foreign()) return 0;
  enter();
  if (sched_event) sched_event("signal", self - T, c);
  for (int i = 0; i < nthr; ++i) if (T[i].state == COND && T[i].on == c) cwake(&T[i]);
  point();
  leave();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) { (void)c; return 0; }

static void finish(struct thr* t) {
  enter();
  if (sched_event) sched_event("exit", t - T, 0);
  t->state = DONE;
  boundary = 1;
  atomic_fetch_add(&progress, 1);
  if (!granted_free) {
    int any = 0;
    for (int i = 0; i < nthr; ++i) any |= T[i].state != DONE;
    if (any) { struct thr* n = choose(); current = n; sem_post(&n->sem); }
  }
  leave();
}
static void* trampoline(void* p) {
  struct thr* t = p;
  self = t;
  while (sem_wait(&t->sem)) {}
  if (sched_event) { enter(); sched_event("start", t - T, 0); leave(); }
  t->ret = t->fn(t->arg);
  finish(t);
  return t->ret;
}
int pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (foreign()) return EAGAIN;
  enter();
  if (nthr >= MAXT) { leave(); return EAGAIN; }
  struct thr* t = &T[nthr];
  memset(t, 0, sizeof *t);
  t->fn = fn; t->arg = arg; t->prio = 1000000 + rnd() % 1000000;
  sem_init(&t->sem, 0, 0);
  if (nthr == 1) { pthread_t w; if (real_create(&w, 0, watchdog, 0) == 0) pthread_detach(w); }
  int r = real_create(&t->id, a, trampoline, t);
  if (r == 0) {
    *id = t->id;
    t->state = READY;
    ++nthr;
    boundary = 1;
    if (granted_free) sem_post(&t->sem);
    if (sched_event) sched_event("create", self - T, (void*)(long)(t - T));
    point();
  }
  leave();
  return r;
}
int pthread_join(pthread_t id, void** ret) {
  if (foreign()) return 0;
  enter();
  struct thr* t = 0;
  for (int i = 1; i < nthr; ++i) if (T[i].id == id) t = &T[i];
  if (!t) { leave(); return real_join(id, ret); }
  self->state = JOIN; self->join = t; boundary = 1;
  reschedule();
  self->state = READY;
  if (sched_event) sched_event("join", self - T, (void*)(long)(t - T));
  leave();
  real_join(id, ret);
  t->id = 0;
  return 0;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (!real_syscall) real_syscall = dlsym(RTLD_NEXT, "syscall");
  if (n != SYS_futex || foreign()) return real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  int op = (int)a[1] & 127 & ~FUTEX_CLOCK_REALTIME;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    enter();
    boundary = 1; self->state = FUTEX; self->on = (void*)a[0]; self->futex_val = (int)a[2]; self->timed = a[3] != 0; self->woken = 0;
    reschedule();
    int w = self->woken;
    self->state = READY;
    if (sched_event) sched_event("acquire", self - T, (void*)a[0]);
    leave();
    if (w == 3) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    enter();
    if (sched_event) sched_event("release", self - T, (void*)a[0]);
    for (int i = 0; i < nthr; ++i) if (T[i].state == FUTEX && T[i].on == (void*)a[0]) T[i].woken = 1;
    point();
    leave();
    return 1;
  }
  return real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int sched_yield(void) {
  if (!active || !self || granted_free) { struct timespec ts = {0, 1000}; return clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, 0); }
  return 0;
}
int sched_self(void) { return self ? (int)(self - T) : -1; }
void sched_point(void) { if (!foreign()) { enter(); point(); leave(); } }

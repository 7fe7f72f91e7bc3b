/* controlled scheduling: one thread runs at a time and every pthread call, sleep and vs_yield is a scheduling point.
   compiled without sanitizers. the real (sanitizer intercepted) mutex functions are called while only one thread runs, so
   that thread sanitizer sees exactly the synchronisation the code under test performs and reports races of the explored schedule.
   if the running thread blocks in something that is not intercepted, the parent process switches to free running threads. */
#define _GNU_SOURCE
#include "vt.h"
#include <pthread.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <linux/futex.h>
#include <sys/syscall.h>

enum { s_none, s_ready, s_mutex, s_cond, s_sleep, s_join, s_done };
#define MAXT 160
typedef struct { int state; void* on; void* mutex; int signalled; long order; int baton; int prio; pthread_t id; } thr_t;
static thr_t T[MAXT];
static int count, current, active;
static long strategy, rnd_state, param, steps, waits, idle_rounds;
static long change[4];
static struct { void* m; int owner; } M[256];
static int mcount;
static __thread int self;
static int create_fail;
extern volatile int* vt_free_run; /* in shared memory */
extern volatile long* vt_progress;

int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
void __real_pthread_exit(void*) __attribute__((noreturn));
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_sched_yield(void);

static void fwait(int* a) { while (!__atomic_exchange_n(a, 0, __ATOMIC_ACQUIRE)) { if (*vt_free_run) return; struct timespec t = {0, 20000000}; syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, &t, 0, 0); } }
static void fwake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static unsigned rnd(unsigned n) { rnd_state = rnd_state * 6364136223846793005L + 1442695040888963407L; return (unsigned)(((unsigned long)rnd_state >> 33) % n); }
static int on(void) { return active && !*vt_free_run; }
static int* owner(void* m) {
  for (int i = 0; i < mcount; i += 1) if (M[i].m == m) return &M[i].owner;
  if (mcount == 256) { mcount = 0; }
  M[mcount].m = m; M[mcount].owner = -1; mcount += 1;
  return &M[mcount - 1].owner;
}
static int enabled(int t) {
  switch (T[t].state) {
    case s_ready: return 1;
    case s_mutex: return *owner(T[t].on) < 0;
    case s_cond: return T[t].signalled && *owner(T[t].mutex) < 0;
    case s_join: return T[(long)T[t].on].state == s_done;
    case s_sleep: return 2;
  }
  return 0;
}
static int pick(void) {
  int run[MAXT], nr = 0, sl[MAXT], ns = 0;
  for (int i = 0; i < count; i += 1) { int e = enabled(i); if (e == 1) run[nr++] = i; else if (e == 2) sl[ns++] = i; }
  if (strategy != 4 && rnd(48) == 0) { /* spurious wakeup */
    int w[MAXT], nw = 0;
    for (int i = 0; i < count; i += 1) if (T[i].state == s_cond && !T[i].signalled) w[nw++] = i;
    if (nw) T[w[rnd(nw)]].signalled = 1;
  }
  if (!nr && !ns) return -1;
  if (!nr) {
    /* only threads that poll are left. if nothing else happens for many rounds nothing can happen any more */
    idle_rounds += 1;
    if (idle_rounds > 40 + 20 * ns) return -1;
    int best = sl[0]; for (int i = 0; i < ns; i += 1) if (T[sl[i]].order < T[best].order) best = sl[i];
    return best;
  }
  idle_rounds = 0;
  switch (strategy) {
    case 2: { /* random priorities with changes */
      for (int k = 0; k < 3; k += 1) if (steps == change[k] && current >= 0) T[current].prio = -1 - k;
      int best = run[0]; for (int i = 0; i < nr; i += 1) if (T[run[i]].prio > T[best].prio) best = run[i];
      if (ns && rnd(16) == 0) best = sl[rnd(ns)];
      return best;
    }
    case 3: /* mostly continue */
      if (rnd(6) && current >= 0 && enabled(current) == 1) return current;
      break;
    case 4: { /* continue, except at given points where the thread is delayed */
      int d = 0; for (int k = 0; k < 3; k += 1) if (steps == change[k]) d += 1;
      int c = current; if (c < 0) c = 0;
      if (!d && enabled(c) == 1) return c;
      for (int i = 1; i <= count; i += 1) { int t = (c + i) % count; if (enabled(t) == 1) return t; }
      return run[0];
    }
  }
  if (ns && rnd(10) == 0) return sl[rnd(ns)];
  return run[rnd(nr)];
}
static void acquire(int t) {
  /* the chosen thread gets what it waited for */
  if (T[t].state == s_mutex) *owner(T[t].on) = t;
  else if (T[t].state == s_cond) *owner(T[t].mutex) = t;
  T[t].state = s_ready;
}
static void reschedule(void) {
  /* called by the running thread with its state set */
  int me = self, t;
  if (!on()) return;
  steps += 1; *vt_progress += 1;
  if (steps > 200000) vt_stop("{\"e\":\"stuck\",\"why\":\"steps\"}");
  t = pick();
  if (t < 0) vt_stop("{\"e\":\"stuck\",\"why\":\"no thread can continue\"}");
  acquire(t);
  current = t;
  if (t == me) return;
  fwake(&T[t].baton);
  if (T[me].state == s_done) return;
  fwait(&T[me].baton);
}
static void point(void) { if (on()) { T[self].state = s_ready; reschedule(); } }

void vs_start(long s, long seed, long p) {
  strategy = s; rnd_state = seed * 7919 + 17; param = p; steps = 0; count = 1; current = 0; mcount = 0; self = 0; idle_rounds = 0;
  memset(T, 0, sizeof(T)); T[0].state = s_ready;
  for (int i = 0; i < MAXT; i += 1) T[i].prio = 1 + rnd(1000);
  for (int k = 0; k < 4; k += 1) change[k] = -1;
  if (s == 2) for (int k = 0; k < 3; k += 1) change[k] = 1 + rnd(p > 0 ? p : 100);
  if (s == 4) { change[0] = seed % 1000; change[1] = seed / 1000 % 1000; change[2] = seed / 1000000 % 1000; for (int k = 0; k < 3; k += 1) if (!change[k]) change[k] = -1; }
  active = s > 0;
}
void vs_stop(void) { active = 0; }
void vs_yield(void) { point(); }
int vs_self(void) { return self; }
long vs_steps(void) { return steps; }
int vs_threads(void) { int n = 0; if (!active) return -1; for (int i = 1; i < count; i += 1) if (T[i].state != s_none && T[i].state != s_done) n += 1; return n; }
void vs_fail_create(int n) { create_fail = n; }

typedef struct { void* (*f)(void*); void* a; int t; } start_t;
static void finished(void) {
  if (!active) return;
  T[self].state = s_done;
  if (on()) reschedule();
}
static void* trampoline(void* x) {
  start_t s = *(start_t*)x; void* r; vt_free(x);
  self = s.t;
  if (active) fwait(&T[self].baton);
  r = s.f(s.a);
  finished();
  return r;
}
int __wrap_pthread_create(pthread_t* id, const pthread_attr_t* attr, void* (*f)(void*), void* a) {
  if (create_fail && !--create_fail) return EAGAIN;
  if (!active) return __real_pthread_create(id, attr, f, a);
  point();
  if (count == MAXT) vt_stop("{\"e\":\"overflow\"}");
  start_t* s = vt_malloc(sizeof(start_t)); s->f = f; s->a = a; s->t = count;
  int t = count;
  T[t].state = s_ready; T[t].baton = 0;
  int r = __real_pthread_create(id, attr, trampoline, s);
  if (r) { T[t].state = s_none; return r; }
  T[t].id = *id; count += 1;
  point();
  return r;
}
int __wrap_pthread_join(pthread_t id, void** value) {
  if (on()) {
    int t = -1; for (int i = 0; i < count; i += 1) if (i && T[i].id == id && T[i].state != s_none) t = i;
    if (t >= 0) { T[self].state = s_join; T[self].on = (void*)(long)t; reschedule(); T[t].id = 0; }
  }
  return __real_pthread_join(id, value);
}
void __wrap_pthread_exit(void* value) { finished(); __real_pthread_exit(value); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (on()) { T[self].state = s_mutex; T[self].on = m; reschedule(); }
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (on()) { point(); if (*owner(m) >= 0) return EBUSY; *owner(m) = self; }
  return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  if (active) { *owner(m) = -1; point(); }
  return r;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int timed) {
  __real_pthread_mutex_unlock(m);
  *owner(m) = -1;
  T[self].state = timed ? s_sleep : s_cond; T[self].on = c; T[self].mutex = m; T[self].signalled = 0; T[self].order = ++waits;
  reschedule();
  if (timed && on()) { T[self].state = s_mutex; T[self].on = m; reschedule(); }
  __real_pthread_mutex_lock(m);
  return 0;
}
static void free_wait(pthread_mutex_t* m) { struct timespec t = {0, 300000}; __real_pthread_mutex_unlock(m); __real_nanosleep(&t, 0); __real_pthread_mutex_lock(m); }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active) return __real_pthread_cond_wait(c, m);
  if (!on()) { free_wait(m); return 0; }
  return cond_wait(c, m, 0);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!active) return __real_pthread_cond_timedwait(c, m, t);
  if (!on()) { free_wait(m); return 0; }
  cond_wait(c, m, 1); return ETIMEDOUT;
}
static void signal_one(pthread_cond_t* c, int all) {
  int w[MAXT], n = 0;
  for (int i = 0; i < count; i += 1) if (T[i].state == s_cond && T[i].on == c && !T[i].signalled) w[n++] = i;
  if (!n) return;
  if (all) { for (int i = 0; i < n; i += 1) T[w[i]].signalled = 1; return; }
  int best = w[0];
  if (strategy == 4) { for (int i = 0; i < n; i += 1) if (T[w[i]].order < T[best].order) best = w[i]; }
  else best = w[rnd(n)];
  T[best].signalled = 1;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!active) return __real_pthread_cond_signal(c);
  if (on()) { signal_one(c, 0); point(); }
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!active) return __real_pthread_cond_broadcast(c);
  if (on()) { signal_one(c, 1); point(); }
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  if (active) for (int i = 0; i < mcount; i += 1) if (M[i].m == m) M[i].owner = -1;
  return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
  if (active) return 0; /* waiters are only known to the scheduler */
  return __real_pthread_cond_destroy(c);
}
static int sleep_point(void) {
  if (!on()) return 0;
  T[self].state = s_sleep; T[self].order = ++waits; reschedule(); return 1;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (sleep_point()) return 0; return __real_nanosleep(a, b); }
int __wrap_usleep(useconds_t a) { if (sleep_point()) return 0; return __real_usleep(a); }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (sleep_point()) return 0; return __real_clock_nanosleep(c, f, a, b); }
int __wrap_sched_yield(void) { if (sleep_point()) return 0; return __real_sched_yield(); }

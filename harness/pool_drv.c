/* drives the thread pool and futures with scripts for the main thread and for tasks */
#include "vd_sp.h"
#include "vt.h"
/* script operations: 1 enqueue task i, 2 new future i, 3 touch future i, 4 yield. tasks and main have scripts */
#define VD_TASKS 40
typedef struct { sph_thread_pool_task_t task; int i; } vd_task_t;
typedef struct { int n; long* ops; sph_future_t* future; vd_task_t* task; int value; } vd_script_t;
static vd_script_t vd_s[VD_TASKS];
static sph_thread_pool_t* vd_pool;
static int vd_base; /* threads of a previous attempt */
static int me(void) { int s = vs_self(); return (s > 0 ? s - vd_base : s); }
static int vd_mode; /* 0 private pool, 1 futures pool */
static void vd_script(int i);
static void vd_body(int i) {
  vt_log("{\"e\":\"start\",\"i\":%d,\"w\":%d}", i, me());
  vs_yield();
  vd_script(i);
  vd_s[i].value = i * 7 + 3; /* read by the waiting thread */
  vs_yield();
  vt_log("{\"e\":\"fin\",\"i\":%d,\"w\":%d}", i, me());
}
static void vd_task_f(sph_thread_pool_task_t* t) {
  int i = ((vd_task_t*)t)->i;
  vd_body(i);
  if (((vd_task_t*)t)->task.data) free(t); /* tasks can free themselves */
}
static void* vd_future_f(void* a) { int i = *(int*)a; vd_body(i); return (&vd_s[i].value); }
static int vd_index[VD_TASKS];
static void vd_script(int self) {
  vd_script_t* s = vd_s + self;
  for (int k = 0; k < s->n; k += 1) {
    int op = s->ops[2 * k], i = s->ops[2 * k + 1];
    if (op == 1) {
      vd_task_t* t = malloc(sizeof(vd_task_t)); t->i = i; t->task.f = vd_task_f; t->task.data = t;
      vt_log("{\"e\":\"enqb\",\"i\":%d,\"w\":%d}", i, me());
      sph_thread_pool_enqueue(vd_mode ? &sph_futures_pool : vd_pool, &t->task);
      vt_log("{\"e\":\"enqe\",\"i\":%d,\"w\":%d}", i, me());
    } else if (op == 2) {
      vd_index[i] = i; vd_s[i].future = malloc(sizeof(sph_future_t));
      vt_log("{\"e\":\"enqb\",\"i\":%d,\"w\":%d}", i, me());
      sph_future_new(vd_future_f, vd_index + i, vd_s[i].future);
      vt_log("{\"e\":\"enqe\",\"i\":%d,\"w\":%d}", i, me());
    } else if (op == 3) {
      int v = -1; int* r;
      vt_log("{\"e\":\"touchb\",\"i\":%d,\"w\":%d}", i, me());
      r = sph_future_touch(vd_s[i].future);
      if (r == &vd_s[i].value) v = *r;
      vt_log("{\"e\":\"touche\",\"i\":%d,\"w\":%d,\"v\":%d}", i, me(), v);
      free(vd_s[i].future); vd_s[i].future = 0;
    } else vs_yield();
  }
}
/* many threads and tasks without controlled scheduling. mode 0 pool, 1 futures, 2 futures after sp_initialize */
#include <dirent.h>
static int tasks(int want) { /* threads of this process. they can be visible for a moment after they have ended */
  int n = 0; for (int k = 0; k < 400; k += 1) { DIR* d = opendir("/proc/self/task"); struct dirent* f; n = 0; while (d && (f = readdir(d))) n += f->d_name[0] != '.'; if (d) closedir(d); if (n == want || want < 0) break; usleep(5000); }
  return (n);
}
typedef struct { sph_thread_pool_task_t task; sph_future_t future; long i, ran, value; } vd_one_t;
static void vd_one(vd_one_t* t) { __atomic_add_fetch(&t->ran, 1, __ATOMIC_SEQ_CST); t->value = t->i * 3 + 1; }
static void vd_one_task(sph_thread_pool_task_t* t) { vd_one((vd_one_t*)t); }
static void* vd_one_future(void* a) { vd_one(a); return (&((vd_one_t*)a)->value); }
static void* vd_idle(void* a) { return (a); } /* sanitizers start a thread of their own with the first */
static void vd_crowd(int mode, long w, long n, int reverse) {
  long r, ran = 0, right = 0; vd_one_t* t = vt_malloc(n * sizeof(*t) + 1); memset(t, 0, n * sizeof(*t)); int before = tasks(-1), during; sph_thread_pool_t* p = 0;
  vt_track(1); if (!mode) p = malloc(sizeof(*p));
  r = mode == 2 ? sp_initialize(w, 1, 100).id : mode ? sph_future_init(w) : sph_thread_pool_new(w, p);
  during = tasks(before + (r ? 0 : (int)w)) - before;
  if (!r) {
    for (long i = 0; i < n; i += 1) { t[i].i = i; t[i].task.f = vd_one_task; if (mode) sph_future_new(vd_one_future, t + i, &t[i].future); else sph_thread_pool_enqueue(p, &t[i].task); }
    for (long k = 0; k < n && mode; k += 1) { long i = reverse ? n - 1 - k : k; long* v = sph_future_touch(&t[i].future); right += v == &t[i].value && *v == i * 3 + 1; }
    if (mode == 2) sp_deinitialize(); else if (mode) sph_future_deinit(); else r = sph_thread_pool_finish(p, 0, 0);
    for (long i = 0; i < n; i += 1) { ran += t[i].ran == 1; if (!mode) right += t[i].value == i * 3 + 1; }
  } else if (mode == 2) sp_deinitialize();
  free(p); vt_track(0); vt_free(t);
  vt_log("{\"e\":\"crowd\",\"mode\":%d,\"w\":%ld,\"n\":%ld,\"r\":%d,\"during\":%d,\"ran\":%ld,\"right\":%ld,\"threads\":%d,\"live\":%ld}", mode, w, n, r != 0, during, ran, right, tasks(before) - before, vt_live());
}
static void vd_run(long* a, long n) {
  long i = 0, r; int no_wait, discard, w, nth;
  if (a[0] == 9) { pthread_t d; if (!pthread_create(&d, 0, vd_idle, 0)) pthread_join(d, 0); tasks(-1); for (i = 1; i + 3 < n; i += 4) vd_crowd(a[i], a[i + 1], a[i + 2], a[i + 3]); vt_log("{\"e\":\"end\",\"live\":0}"); return; }
  vt_track(1);
  vs_start(a[0], a[1], a[2]); i = 3;
  vd_mode = a[i++]; w = a[i++]; no_wait = a[i++]; discard = a[i++]; nth = a[i++];
  while (i < n) { int t = a[i++]; vd_s[t].n = a[i++]; vd_s[t].ops = a + i; i += 2 * vd_s[t].n; }
  if (!vd_mode) vd_pool = malloc(sizeof(sph_thread_pool_t));
  if (nth) { /* the nth thread cannot be created */
    vs_fail_create(nth); r = (vd_mode ? sph_future_init(w) : sph_thread_pool_new(w, vd_pool)); vs_fail_create(0); vd_base = nth - 1;
    vt_log("{\"e\":\"newx\",\"w\":%d,\"r\":%d,\"threads\":%d}", w, r != 0, vs_threads());
  }
  r = (vd_mode ? sph_future_init(w) : sph_thread_pool_new(w, vd_pool));
  vt_log("{\"e\":\"new\",\"w\":%d,\"r\":%ld,\"threads\":%d}", w, r, vs_threads());
  if (!r) {
    vd_script(0);
    vt_log("{\"e\":\"finb\",\"nowait\":%d,\"discard\":%d}", no_wait, discard);
    if (vd_mode) sph_future_deinit();
    else {
      r = sph_thread_pool_finish(vd_pool, no_wait, discard);
      if (no_wait) { vt_log("{\"e\":\"finn\"}"); vs_yield(); vs_yield(); r = sph_thread_pool_finish(vd_pool, 0, 0); }
    }
    vt_log("{\"e\":\"fine\",\"r\":%ld,\"threads\":%d}", r, vs_threads());
    if (vd_pool) free(vd_pool);
  }
  vs_stop(); vt_track(0);
  vt_log("{\"e\":\"end\",\"live\":%ld}", vt_live());
}
int main(int argc, char** argv) { return (vt_main(argc, argv, vd_run, 20)); }

/* compiled without sanitizers so that logging does not order or race with the code under test */
#define _GNU_SOURCE
#include "vt.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

#define LOG_SIZE (4 << 20)
typedef struct { volatile size_t used; volatile int full; volatile int phase; volatile int free_run; volatile long progress; char data[LOG_SIZE]; } vt_log_t;
static vt_log_t* vt_l;
int vt_log_full; static int vt_parent;
volatile int* vt_free_run; volatile long* vt_progress;

void vt_log(const char* format, ...) {
  char b[65536]; va_list ap; int n;
  va_start(ap, format); n = vsnprintf(b, sizeof(b), format, ap); va_end(ap);
  if (n < 0 || n >= (int)sizeof(b)) { vt_l->full = 1; return; }
  size_t o = __atomic_fetch_add(&vt_l->used, (size_t)n + 1, __ATOMIC_RELAXED);
  if (o + n + 2 >= LOG_SIZE) { vt_l->full = 2; if (!vt_parent) _exit(9); return; } /* endless output */
  vt_l->data[o] = ',';
  memcpy(vt_l->data + o + 1, b, n);
}
size_t vt_log_mark(void) { return vt_l->used; }
static void vt_exit(int c) {
#ifdef VT_COV
  void __gcov_dump(void); vt_track(0); __gcov_dump();
#endif
  _exit(c);
}
void vt_stop(const char* event) { vt_log("%s", event); vt_l->phase = 2; vt_exit(0); }

/* ---- allocation tracking: open addressing table of live addresses ---- */
#define TAB (1 << 16)
static uintptr_t tab[TAB]; /* 0 empty, 1 deleted */
static volatile int tab_lock, tracking;
static long live, bad, ops, fail_n, failed_flag;
static int open_files;
static void lock(void) { while (__atomic_exchange_n(&tab_lock, 1, __ATOMIC_ACQUIRE)) ; }
static void unlock(void) { __atomic_store_n(&tab_lock, 0, __ATOMIC_RELEASE); }
static size_t hash(uintptr_t a) { return (size_t)((a >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (TAB - 1); }
static long ids[TAB], next_id; static int tracing; /* allocations as events */
void vt_trace(int on) { tracing = on; }
static void put(void* p) {
  uintptr_t a = (uintptr_t)p; size_t i; long id; if (!p) return;
  lock(); for (i = hash(a); tab[i] > 1; i = (i + 1) & (TAB - 1)) ; tab[i] = a; live += 1; id = ids[i] = ++next_id; unlock();
  if (tracing) vt_log("{\"e\":\"a\",\"p\":%ld}", id);
}
static int take(void* p) {
  uintptr_t a = (uintptr_t)p; size_t i, c; int r = 0; long id = 0;
  lock(); for (i = hash(a), c = 0; tab[i] && c < TAB; i = (i + 1) & (TAB - 1), c += 1) if (tab[i] == a) { tab[i] = 1; live -= 1; r = 1; id = ids[i]; break; }
  unlock();
  if (tracing && (r || tracking)) vt_log("{\"e\":\"f\",\"p\":%ld}", id);
  return r;
}
void vt_track(int on) { tracking = on; }
long vt_live(void) { return live; }
long vt_bad_frees(void) { return bad; }
long vt_alloc_count(void) { return ops; }
void vt_fail_at(long n) { fail_n = n; failed_flag = 0; ops = 0; }
static int partial;
/* failing writes process half of the data */
void vt_partial(int on) { partial = on; }
int vt_failed(void) { return failed_flag; }
int vt_open_files(void) { return open_files; }
static int inject(void) {
  if (!tracking) return 0;
  long o = __atomic_add_fetch(&ops, 1, __ATOMIC_RELAXED);
  if (fail_n && o == fail_n) { failed_flag = 1; if (tracing) vt_log("{\"e\":\"x\"}"); return 1; }
  return 0;
}
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* vt_malloc(size_t n) { return __real_malloc(n); }
void vt_free(void* a) { __real_free(a); }
void* __wrap_malloc(size_t n) {
  void* p; if (!tracking) return __real_malloc(n);
  if (inject()) { errno = ENOMEM; return 0; }
  p = __real_malloc(n); put(p); return p;
}
void* __wrap_calloc(size_t n, size_t m) {
  void* p; if (!tracking) return __real_calloc(n, m);
  if (inject()) { errno = ENOMEM; return 0; }
  p = __real_calloc(n, m); put(p); return p;
}
void* __wrap_realloc(void* a, size_t n) {
  void* p; int was; if (!tracking) return __real_realloc(a, n);
  if (inject()) { errno = ENOMEM; return 0; }
  was = a ? take(a) : 1;
  if (a && !was) bad += 0; /* allocated before tracking started */
  p = __real_realloc(a, n);
  if (p) put(p); else if (a && n) put(a);
  return p;
}
void __wrap_free(void* p) {
  if (p) take(p);
  __real_free(p); /* address sanitizer reports invalid and double frees */
}
#ifdef VT_IO
static FILE* writing[8];
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); size_t __real_fwrite(const void*, size_t, size_t, FILE*); size_t __real_fread(void*, size_t, size_t, FILE*); int __real_fseek(FILE*, long, int);
FILE* __wrap_fopen(const char* a, const char* b) {
  FILE* f; if (!tracking) return __real_fopen(a, b);
  if (inject()) { errno = EACCES; return 0; }
  int t = tracking; tracking = 0; f = __real_fopen(a, b); tracking = t; if (f && b[0] == 'w') for (int i = 0; i < 8; i += 1) if (!writing[i]) { writing[i] = f; break; }
  if (f) { open_files += 1; if (tracing) vt_log("{\"e\":\"o\"}"); } return f;
}
int __wrap_fclose(FILE* f) { int w = 0, fail; for (int i = 0; i < 8; i += 1) if (writing[i] == f) { writing[i] = 0; w = 1; } fail = w && tracking && inject(); int t = tracking; if (t) { open_files -= 1; if (tracing) vt_log("{\"e\":\"c\"}"); } tracking = 0; int r = __real_fclose(f); tracking = t; return fail ? EOF : r; }
size_t __wrap_fwrite(const void* a, size_t s, size_t n, FILE* f) {
  if (inject()) { if (!partial) return 0; int t = tracking; tracking = 0; size_t r = __real_fwrite(a, 1, s * n / 2 / 4 * 4, f); tracking = t; return s ? r / s : 0; }
  int t = tracking; tracking = 0; size_t r = __real_fwrite(a, s, n, f); tracking = t; return r;
}
size_t __wrap_fread(void* a, size_t s, size_t n, FILE* f) {
  if (inject()) return 0;
  int t = tracking; tracking = 0; size_t r = __real_fread(a, s, n, f); tracking = t; return r;
}
#endif

/* ---- one child per scenario ---- */
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#ifdef VT_SCHED
int __real_usleep(useconds_t);
#define usleep __real_usleep
#endif
/* rs: the race is about the random state shared by the library */
int __tsan_get_report_mop(void*, unsigned long, int*, void**, int*, int*, int*, void**, unsigned long) __attribute__((weak));
extern char sp_random_state[] __attribute__((weak));
void __tsan_on_report(void* r) {
  int t, size, wr, at; void* a = 0; void* trace[1]; int rs = 0;
  if (__tsan_get_report_mop && __tsan_get_report_mop(r, 0, &t, &a, &size, &wr, &at, trace, 1) && sp_random_state && (char*)a >= sp_random_state && (char*)a < sp_random_state + 32) rs = 1;
  vt_log("{\"e\":\"race\",\"rs\":%d}", rs);
}
int vt_main(int argc, char** argv, void (*f)(long*, long), double timeout_s) {
  char* line = 0; size_t cap = 0; ssize_t len; long index = 0;
  vt_l = mmap(0, sizeof(vt_log_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  vt_free_run = &vt_l->free_run; vt_progress = &vt_l->progress;
  long* a = __real_malloc(sizeof(long) * (1 << 16));
  int timeouts = 0;
  (void)argc; (void)argv;
  while ((len = getline(&line, &cap, stdin)) > 0) {
    long n = 0; char* p = line; char* q;
    while (n < (1 << 16)) { long v = strtol(p, &q, 10); if (q == p) break; a[n++] = v; p = q; }
    if (!n) continue;
    if (timeouts >= 12) { fputs("{\"ev\":[{\"e\":\"skipped\"}]}\n", stdout); continue; }
    vt_l->used = 0; vt_l->full = 0; vt_l->phase = 0; vt_l->free_run = 0; vt_l->progress = 0;
    fflush(stdout); vt_parent = 1;
    pid_t pid = fork();
    if (!pid) { vt_parent = 0;
      struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
      if (!getenv("VT_STDERR")) { if (!freopen("/dev/null", "w", stderr)) _exit(3); }
      if (!freopen("/dev/null", "w", stdout)) _exit(3);
      f(a, n); vt_l->phase = 1; vt_exit(0);
    }
    int st; double t0 = now(), t1 = t0; int timed_out = 0; long spins = 0, seen = 0;
    while (1) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) break;
      if (now() - t0 > timeout_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); timed_out = 1; break; }
      /* the running thread blocks in something the scheduler does not know */
      if (vt_l->progress != seen) { seen = vt_l->progress; t1 = now(); } else if (seen && now() - t1 > 1.5) vt_l->free_run = 1;
      spins += 1;
      usleep(spins < 100 ? 50 : spins < 300 ? 500 : 5000);
    }
    /* keep the whole run short when a change makes many scenarios hang */
    if (timed_out && ++timeouts >= 3 && timeout_s > 1) timeout_s = 1;
    if (timed_out) vt_log("{\"e\":\"timeout\"}");
    else if (WIFSIGNALED(st)) vt_log("{\"e\":\"crash\",\"why\":\"signal %d\"}", WTERMSIG(st));
    else if (WEXITSTATUS(st) || !vt_l->phase) vt_log("{\"e\":\"crash\",\"why\":\"exit %d\"}", WEXITSTATUS(st));
    size_t used = vt_l->used;
    if (vt_l->full == 2) fputs("{\"ev\":[{\"e\":\"timeout\"}]}\n", stdout);
    else if (vt_l->full || used >= LOG_SIZE) { fputs("{\"ev\":[{\"e\":\"overflow\"}]}\n", stdout); }
    else { fputs("{\"ev\":[", stdout); if (used) fwrite(vt_l->data + 1, 1, used - 1, stdout); fputs("]}\n", stdout); }
    index += 1;
  }
  fflush(stdout);
  return 0;
}
